"""Which words stored in terms may refer to a cell of the local stack, or be a separated FD cell?

Classes of a word: 'L' it may be (a chain of references to) an unbound cell of the local stack; 'F' it may carry the tag of an FD
variable away from its cell; ('p', i) whatever parameter i is; ('c', i) whatever parameter i points to.  Words read from the heap are
neither L nor F (the invariant).  Tags established by the branches taken refine the class (forward dataflow)."""
from . import ir
from .prep import AnalysisBroken

REFL, REFG, FDV, ATOMIC, OTHER = 'l', 'g', 'f', 'a', 'o'
ALL = frozenset((REFL, REFG, FDV, ATOMIC, OTHER))
CASTS = ('inttoptr', 'ptrtoint', 'bitcast', 'freeze')
MASK = {-8, (1 << 64) - 8}


def const(o):
    return o[1] if isinstance(o, list) and o and o[0] == 'c' else 0 if isinstance(o, list) and o and o[0] == 'null' else None


class Tags:
    def __init__(self, prog):
        self.ref, self.fdv = 0, None
        self.atomic = set()
        # the values of the tags, from the initialisation functions that use them
        import re
        import os
        from . import prep
        t = open(os.path.join(prep.configure(), 'EnginePl', 'wam_archi.h')).read()
        v = {m.group(1): int(m.group(2)) for m in re.finditer(r'#define\s+(REF|FDV|ATM|INT|FLT|LST|STC)\s+(\d+)', t)}
        if len(v) < 7:
            raise AnalysisBroken('tags not found in wam_archi.h: %s' % v)
        self.v = v

    def of(self, tag):
        if tag == self.v['REF']:
            return frozenset((REFL, REFG))
        if tag == self.v['FDV']:
            return frozenset((FDV,))
        return frozenset((ATOMIC,)) if tag in (self.v['ATM'], self.v['INT']) else frozenset((OTHER,))

    def but(self, tag):
        return ALL - self.of(tag) if tag in (self.v['REF'], self.v['FDV']) else ALL


class FnFlow:
    """one function: classes of its words, sinks"""

    def __init__(self, an, f):
        self.an, self.f, self.D = an, f, f.defs
        self._place = {}
        self._alias = {}
        prog = an.prog
        self.codes = {repr(i[5][0]) for _, i in f.calls() if ir.callee(i) in ('Pl_Create_Choice_Point', 'Pl_Update_Choice_Point') and i[5]}
        self.retry = not f.args and any(ir.callee(i) in ('Pl_Update_Choice_Point', 'Pl_Delete_Choice_Point') for _, i in f.calls())
        self.dead = {b for b in f.rpo for x in f.blocks[b] if x[0] == 'call' and (x[6] or ir.callee(x) and prog.is_noreturn(ir.callee(x), f.unit))}
        self.env()

    # ---- the facts: root value -> kinds it may still be
    def root(self, o):
        D = self.D
        while isinstance(o, int) and o in D:
            x = D[o][1]
            if x[0] in CASTS:
                o = x[4][0]
            elif x[0] == 'and' and const(x[4][1]) in MASK:
                o = x[4][0]
            elif x[0] == 'phi':
                n = self.alias(o, x)
                if n is None:
                    break
                o = n
            else:
                break
        return o

    def alias(self, o, x):
        """the value a phi always equals: the end of a dereferencing loop (the word left is the one whose tag was tested)"""
        if o not in self._alias:
            self._alias[o] = None
            b = self.D[o][0]
            for _, base in x[4]:
                if isinstance(base, int) and all(v == base or self.same(pb, b, v, base) for pb, v in x[4]):
                    self._alias[o] = base
                    break
        return self._alias[o]

    def same(self, pb, b, v, base):
        """does the edge pb -> b imply v == base?"""
        for _ in range(4):
            t = self.f.blocks[pb][-1]
            if t[0] == 'br' and len(t) > 5:
                c = t[4]
                if not isinstance(c, int) or c not in self.D:
                    return False
                i = self.D[c][1]
                if i[0] != 'icmp' or i[4] not in ('eq', 'ne') or t[5] == t[6]:
                    return False
                return {repr(i[5]), repr(i[6])} == {repr(v), repr(base)} and (b == t[5]) == (i[4] == 'eq')
            if t[0] != 'br' or len(self.f.pred[pb]) != 1 or len(self.f.blocks[pb]) > 1:
                return False
            pb, b = self.f.pred[pb][0], pb
        return False

    def tagof(self, o):
        """the word whose tag o is"""
        D = self.D
        while isinstance(o, int) and o in D and D[o][1][0] in ('zext', 'trunc', 'sext', 'freeze'):
            o = D[o][1][4][0]
        if isinstance(o, int) and o in D and D[o][1][0] == 'and' and const(D[o][1][4][1]) == 7:
            return self.root(D[o][1][4][0])
        return None

    def lssa(self, o):
        D = self.D
        if isinstance(o, int) and o in D and D[o][1][0] == 'load':
            return self.an.regaddr(self, D[o][1][4]) == 'LSSA'
        return False

    def cond(self, c, val, S, depth=0):
        D = self.D
        if S is None or not isinstance(c, int) or c not in D or depth > 4:
            return S
        x = D[c][1]
        if x[0] in ('zext', 'trunc', 'sext', 'freeze'):
            return self.cond(x[4][0], val, S, depth + 1)
        if x[0] == 'xor' and const(x[4][1]) in (1, -1):
            return self.cond(x[4][0], not val, S, depth + 1)
        if x[0] == 'and' and x[2] == 'i1' and val or x[0] == 'or' and x[2] == 'i1' and not val:
            return self.cond(x[4][1], val, self.cond(x[4][0], val, S, depth + 1), depth + 1)
        if x[0] == 'select' and x[2] == 'i1':
            c0, a, b = x[4]
            if const(b) == 0 and val:
                return self.cond(a, True, self.cond(c0, True, S, depth + 1), depth + 1)
            if const(a) in (1, -1) and not val:
                return self.cond(b, False, self.cond(c0, False, S, depth + 1), depth + 1)
            return S
        if x[0] == 'phi':
            alts = []
            for pb, v in x[4]:
                k = const(v)
                if k is not None:
                    if bool(k) == val:
                        alts.append(self.out(pb, D[c][0]))
                else:
                    alts.append(self.cond(v, val, self.out(pb, D[c][0]), depth + 1))
            alts = [a for a in alts if a is not None]
            return meet(S, join(alts)) if alts else S
        if x[0] != 'icmp':
            return S
        op, a, b = x[4], x[5], x[6]
        if const(a) is not None and const(b) is None:
            a, b = b, a
            op = {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(op, op)
        if not val:
            op = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[op]
        k = const(b)
        if op in ('eq', 'ne'):
            w = self.tagof(a)
            if w is not None and k is not None:
                return put(S, w, self.an.T.of(k) if op == 'eq' else self.an.T.but(k))
            if k is not None and op == 'eq':
                w = self.root(a)
                if isinstance(w, int) and k > 7:
                    return put(S, w, self.an.T.of(k & 7))
            if op == 'eq' and k is None:
                for p, q in ((a, b), (b, a)):
                    if isinstance(q, list) and q and q[0] == 'ce':
                        return S
            if k is not None and op == ('ne' if k == 0 else 'eq') and isinstance(a, int) and a in D and D[a][1][0] in ('zext', 'icmp', 'phi', 'and', 'or', 'xor', 'select') and k in (0, 1):
                return self.cond(a, op == 'ne' or k == 1, S, depth + 1)
            if k == 0 and op == 'eq' and isinstance(a, int) and a in D and D[a][1][0] in ('zext', 'icmp', 'phi', 'select'):
                return self.cond(a, False, S, depth + 1)
            return S
        if self.lssa(b) and op in ('ult',):
            return put(S, self.root(a), ALL - {REFL})
        if self.lssa(a) and op in ('ugt',):
            return put(S, self.root(b), ALL - {REFL})
        if op in ('ult', 'ule') and k is not None and k < 8:         # tag < k
            w = self.tagof(a)
            if w is not None:
                r = frozenset()
                for t in range(k + (op == 'ule')):
                    r |= self.an.T.of(t)
                return put(S, w, r)
        if op in ('ugt', 'uge') and k is not None and k < 8:
            w = self.tagof(a)
            if w is not None:
                r = frozenset()
                for t in range(k + (op == 'ugt'), 8):
                    r |= self.an.T.of(t)
                return put(S, w, r)
        return S

    def out(self, b, s):
        """facts on the edge b -> s"""
        S = self.S.get(b)
        if S is None or b in self.dead:
            return None
        r = self._out.get((b, s))
        if r is None or r[0] is not S:
            self._out[b, s] = S, S                      # while it is being computed
            r = self._out[b, s] = S, self.edge(b, s, S)
        return r[1]

    def edge(self, b, s, S):
        t = self.f.blocks[b][-1]
        if t[0] == 'br' and len(t) > 5 and t[5] != t[6]:
            return self.cond(t[4], s == t[5], S)
        if t[0] == 'switch':
            w = self.tagof(t[4])
            if w is not None:
                r = frozenset()
                ks = [k for k, tb in t[6] if tb == s]
                for k in ks:
                    r |= self.an.T.of(k)
                if s == t[5]:
                    rest = ALL
                    for k, _ in t[6]:
                        rest &= self.an.T.but(k)
                    r |= rest
                return put(S, w, r)
        return S

    def env(self):
        f = self.f
        self.S = {0: {}}
        self._out = {}
        order = f.rpo
        for _ in range(30):
            ch = False
            for b in order:
                if b:
                    ins = [self.out(p, b) for p in f.pred[b]]
                    S = join([x for x in ins if x is not None]) if any(x is not None for x in ins) else None
                    if S is None:
                        continue
                    S = dict(S)
                    for x in f.blocks[b]:
                        if x[0] != 'phi':
                            break
                        ks = frozenset()
                        for pb, v in x[4]:
                            e = self.out(pb, b)
                            if e is None:
                                continue
                            k = const(v)
                            if k is not None and isinstance(k, int):
                                ks |= self.an.T.of(k & 7) if k > 7 else frozenset((ATOMIC,))
                            else:
                                v = self.root(v)
                                ks |= e.get(v, ALL) if isinstance(v, int) else ALL
                        if self.alias(x[1], x) is not None:
                            pass
                        elif ks and ks != ALL:
                            S[x[1]] = ks
                        else:
                            S.pop(x[1], None)
                    if S != self.S.get(b):
                        self.S[b] = S
                        ch = True
            if not ch:
                break
        else:
            self.S = {b: {} for b in order}

    # ---- classes
    def classes(self):
        """ssa id -> set of atoms"""
        f, D = self.f, self.D
        C = {}
        self.tested = frozenset().union(*[frozenset(S) for S in self.S.values()]) if self.S else frozenset()
        ch = True
        n = 0
        while ch and n < 50:
            ch = False
            n += 1
            for b in f.rpo:
                for x in f.blocks[b]:
                    if x[1] < 0:
                        continue
                    c = self.value(x, b, C)
                    if c - C.get(x[1], frozenset()):
                        C[x[1]] = C.get(x[1], frozenset()) | c
                        ch = True
        self.C = C
        return C

    def cls(self, o, b, C, facts=None):
        """class of the operand o used in block b"""
        return frozenset(x for x, _ in self.cls2(o, b, C, facts))

    def cls2(self, o, b, C, facts=None):
        """the same, each with the values tested that it is equal to"""
        if not isinstance(o, int):
            return frozenset()
        if o not in self.D:
            c = ('p', o) if self.f.args[o] == 'i64' else ('c', o) if self.f.args[o] == 'p' else None
            c = frozenset(((c, frozenset()),)) if c else frozenset()
        else:
            c = C.get(o, frozenset())
        if not c:
            return c
        S = facts if facts is not None else self.S.get(b) or {}
        k = self.root(o)
        add = frozenset((k,)) if isinstance(k, int) and k in self.tested else frozenset()
        r = set()
        for x, ch in c:
            ch = ch | add
            if x != 'F' and not (x == 'L' or isinstance(x, tuple) and x[0] == 'p'):
                r.add((x, ch))
            elif all((FDV if x == 'F' else REFL) in S.get(q, ALL) for q in ch):
                r.add((x, ch))
        return frozenset(r)

    def value(self, x, b, C):
        op = x[0]
        E = frozenset()
        if op == 'phi':
            r = E
            for pb, v in x[4]:
                e = self.out(pb, b)
                if e is None:
                    continue
                r |= self.cls2(v, b, C, e)
            return r
        if op == 'select':
            S = self.S.get(b) or {}
            return self.cls2(x[4][1], b, C, self.cond(x[4][0], True, S)) | self.cls2(x[4][2], b, C, self.cond(x[4][0], False, S))
        if op in CASTS:
            return self.cls2(x[4][0], b, C)
        return frozenset((y, E) for y in self.value0(x, b, C))

    def value0(self, x, b, C):
        op = x[0]
        E = frozenset()
        if op == 'and':
            return self.cls(x[4][0], b, C) - {'F'} if const(x[4][1]) in MASK else E
        if op == 'getelementptr':
            p = self.base(x[1])
            if isinstance(p, int) and p not in self.D and self.f.args[p] == 'p':
                return frozenset((('c', p),))
            return E
        if op == 'load':
            return self.load(x, b, C)
        if op == 'call':
            return self.an.result(self, x, b, C)
        return E

    def base(self, o):
        D = self.D
        seen = 0
        while isinstance(o, int) and o in D and seen < 60:
            seen += 1
            x = D[o][1]
            if x[0] in ('getelementptr',):
                o = x[4]
            elif x[0] in ('bitcast', 'freeze'):
                o = x[4][0]
            elif x[0] == 'phi':
                bs = {repr(y): y for y in (self.base1(v, o) for _, v in x[4]) if y is not None}
                if len(bs) == 1:
                    o = list(bs.values())[0]
                    if isinstance(o, int) and o in D and D[o][1][0] == 'phi':
                        break
                else:
                    break
            else:
                break
        return o

    def base1(self, o, stop):
        D = self.D
        for _ in range(40):
            if o == stop:
                return None
            if isinstance(o, int) and o in D and D[o][1][0] == 'getelementptr':
                o = D[o][1][4]
            elif isinstance(o, int) and o in D and D[o][1][0] in ('bitcast', 'freeze'):
                o = D[o][1][4][0]
            else:
                return o
        return o

    def place(self, a):
        if isinstance(a, int):
            if a not in self._place:
                self._place[a] = self.place0(a)
            return self._place[a]
        return self.place0(a)

    def place0(self, a):
        """what kind of memory an address is in: ('word', w, exact) reached from word w, ('H',), ('E',), ('A',), ('g', name), ('param', i), ('alloca', id), ('ld', address) or None"""
        D = self.D
        exact = True
        o = a
        for _ in range(60):
            if isinstance(o, int) and o in D:
                x = D[o][1]
                if x[0] == 'getelementptr':
                    if x[5] or x[6]:
                        exact = False
                    o = x[4]
                    continue
                if x[0] in ('bitcast', 'freeze'):
                    o = x[4][0]
                    continue
                if x[0] == 'inttoptr':
                    w = x[4][0]
                    if isinstance(w, int) and w in D:
                        y = D[w][1]
                        if y[0] == 'ptrtoint':
                            o = y[4][0]
                            continue
                        if y[0] in ('and', 'add', 'sub', 'or', 'lshr', 'shl', 'xor'):
                            return ('word', y[4][0], False)
                    return ('word', w, exact)
                if x[0] == 'phi':
                    n = self.base(o)
                    if n == o:
                        ps = {self.place1(v, o) for _, v in x[4]} - {None}
                        for k in ('word', 'H'):
                            for p in ps:
                                if p[0] == k:
                                    return p[:2] + (False,) if k == 'word' else p
                        return ps.pop() if len(ps) == 1 else None
                    o = n
                    exact = False
                    continue
                if x[0] == 'select':
                    o = x[4][1]
                    continue
                if x[0] == 'load':
                    r = self.an.regaddr(self, x[4])
                    if r in ('H', 'HB1'):
                        return ('H',)
                    if r == 'S':
                        return ('S',)
                    if r in ('E', 'B'):
                        return ('E',)
                    if r:
                        return ('reg', r)
                    if isinstance(x[4], list) and x[4][:2] == ['g', 'pl_reg_bank']:
                        return ('A',)
                    return ('ld', repr(x[4]))
                if x[0] == 'call':
                    c = ir.callee(x) or ''
                    if c.startswith(('Pl_Rd_Compound', 'Pl_Rd_List', 'Pl_Rd_Callable')):
                        return ('word', None, False)
                    return ('call', c)
                if x[0] == 'alloca':
                    return ('alloca', o)
                return None
            if isinstance(o, int):
                return ('param', o) if self.f.args[o] == 'p' else None
            if isinstance(o, list) and o and o[0] == 'g':
                return ('A',) if o[1] == 'pl_reg_bank' else ('g', o[1])
            if isinstance(o, list) and o and o[0] == 'ce':
                for y in o[2]:
                    if isinstance(y, list) and y and y[0] == 'g':
                        return ('g', y[1])
            return None
        return None

    def place1(self, o, stop):
        if o == stop:
            return None
        D = self.D
        q = o
        for _ in range(40):
            if q == stop:
                return None
            if isinstance(q, int) and q in D and D[q][1][0] == 'getelementptr':
                q = D[q][1][4]
            else:
                break
        if isinstance(q, int) and q in D and D[q][1][0] == 'phi':
            return None
        return self.place(o)

    def load(self, x, b, C):
        if x[2] != 'i64':
            return frozenset()
        a = x[4]
        p = self.place(a)
        E = frozenset()
        if p is None:
            return E
        if p[0] == 'word':
            if p[2] and p[1] is not None:
                # dereferencing: what a reference leads to
                return (self.cls(p[1], b, C) - {'F'}) | frozenset('F')
            return E
        if p[0] == 'A' or p[0] == 'E':
            if p[0] == 'A' and self.retry:
                k = self.aoff(a)
                ks = [(self.f.unit.name, c, k) for c in self.codes or ('',)]
                if k is not None and all(q in self.an.acls for q in ks):
                    return frozenset().union(*[self.an.acls[q] for q in ks])
            return frozenset('L')
        if p[0] == 'g':
            return self.an.gcls.get((p[1]), E)
        if p[0] == 'alloca':
            return self.reaching(a, x, b, p, C)
        if p[0] == 'param':
            return frozenset((('c', p[1]),))
        return E

    def aoff(self, a):
        """offset of the argument register at this address"""
        D, off = self.D, 0
        while isinstance(a, int) and a in D and D[a][1][0] == 'getelementptr':
            if D[a][1][6]:
                return None
            off += D[a][1][5]
            a = D[a][1][4]
        if isinstance(a, int) and a in D and D[a][1][0] == 'load' and isinstance(D[a][1][4], list) and D[a][1][4][:2] == ['g', 'pl_reg_bank']:
            return off
        return None

    def reaching(self, a, x, b, p, C):
        """class of a local variable read by x: what the stores reaching it stored"""
        f = self.f
        every = [(i, bb) for bb in f.rpo for i in f.blocks[bb] if i[0] == 'store' and self.place(i[5]) == p]
        exact = a == p[1] and all(i[5] == p[1] for i, _ in every)
        if exact:
            r, seen, todo = frozenset(), set(), [(b, f.blocks[b].index(x))]
            while todo:
                bb, n = todo.pop()
                for j in range(n - 1, -1, -1):
                    i = f.blocks[bb][j]
                    if i[0] == 'store' and i[5] == p[1]:
                        r |= self.cls(i[4], bb, C)
                        break
                    if i[0] == 'call' and any(self.place(v) == p for v in i[5]):
                        exact = False
                else:
                    for q in f.pred[bb]:
                        if q not in seen and q not in self.dead:
                            seen.add(q)
                            todo.append((q, len(f.blocks[q])))
            if exact:
                return r
        r = frozenset()
        for i, bb in every:
            r |= self.cls(i[4], bb, C)
        return r

    def sinks(self):
        """(instruction, block, class, text)"""
        C = self.classes()
        r = []
        ends = self.returning()
        for b in self.f.rpo:
            if b not in ends:                               # an error is raised anyhow: the ball is a copy
                continue
            for x in self.f.blocks[b]:
                if x[0] == 'store' and x[7] == 'i64':
                    p = self.place(x[5])
                    keeps = self.f.unit.name in self.an.keepers and p is not None and p[0] in ('param', 'ld', 'call')
                    if p is None or p[0] not in ('word', 'H', 'S') and not keeps:
                        continue
                    c = self.cls(x[4], b, C)
                    if p[0] == 'word' and p[2] and self.newly_self(x):
                        continue
                    if c:
                        r.append((x, b, c, 'is kept in a global variable' if keeps else 'is stored in a term'))
                elif x[0] == 'call':
                    n = ir.callee(x)
                    if n is None:
                        continue
                    g = self.an.prog.fn(n, self.f.unit)
                    sk = self.an.sink.get(g) if g is not None else None
                    if not sk:
                        continue
                    for a in sorted(sk, key=repr):
                        i = a[1]
                        if i >= len(x[5]):
                            continue
                        v = x[5][i]
                        if a[0] == 'p':
                            c = self.cls(v, b, C)
                        else:
                            c = self.content(v, b, C)
                        if a[2] == 'L':
                            c = c - {'F'}
                        elif a[2] == 'F':
                            c = c & {'F'}
                        if c:
                            r.append((x, b, c, 'is passed to %s, which stores it in a term' % n))
        return r

    def returning(self):
        """blocks from which the function can return"""
        f = self.f
        dead = self.dead
        ok = {b for b in f.rpo if f.blocks[b][-1][0] == 'ret' and b not in dead}
        st = list(ok)
        while st:
            for p in f.pred[st.pop()]:
                if p not in ok and p not in dead:
                    ok.add(p)
                    st.append(p)
        return ok

    def newly_self(self, x):
        """*adr = <REF, adr>"""
        return self.root(x[4]) == self.root(x[5])

    def content(self, v, b, C):
        """class of the words a pointer leads to"""
        p = self.place(v)
        E = frozenset()
        if p is None:
            return E
        if p[0] == 'param':
            return frozenset((('c', p[1]),))
        if p[0] in ('A', 'E'):
            return frozenset('L')
        if p[0] == 'alloca':
            r = E
            for bb in self.f.rpo:
                for i in self.f.blocks[bb]:
                    if i[0] == 'store' and self.place(i[5]) == p:
                        r |= self.cls(i[4], bb, C)
            return r
        if p[0] == 'g':
            return self.an.gcls.get(p[1], E)
        return E


def put(S, w, ks):
    if not isinstance(w, int):
        return S
    n = S.get(w, ALL) & ks
    if n == S.get(w):
        return S
    S = dict(S)
    S[w] = n
    return S


def join(ss):
    if not ss:
        return {}
    r = {}
    for k in set.intersection(*[set(s) for s in ss]):
        v = frozenset().union(*[s[k] for s in ss])
        if v != ALL:
            r[k] = v
    return r


def meet(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, ALL) & v
    return r


class Analysis:
    def __init__(self, prog, bank, entries, skip, keepers=()):
        self.prog, self.bank = prog, bank
        self.T = Tags(prog)
        self.entries = entries
        self.gcls = {}
        self.sink = {}          # Fn -> set of ('p'|'c', i, 'L'|'F')
        self.ret = {}
        self.flows = {}
        self.skip = skip
        self.keepers = keepers  # units whose own records outlive the calls
        self.acls = {}          # (unit, code of the alternative, offset) -> class of the argument registers written

    def regaddr(self, fl, a):
        D = fl.D
        off = 0
        while isinstance(a, int) and a in D and D[a][1][0] == 'getelementptr' and not D[a][1][6]:
            off += D[a][1][5]
            a = D[a][1][4]
        if isinstance(a, int) and a in D and D[a][1][0] == 'load' and isinstance(D[a][1][4], list) and D[a][1][4][:2] == ['g', 'pl_reg_bank']:
            return self.bank.off.get(off)
        return None

    def result(self, fl, x, b, C):
        n = ir.callee(x)
        if n is None or x[2] != 'i64':
            return frozenset()
        g = self.prog.fn(n, fl.f.unit)
        r = frozenset()
        for a in self.ret.get(g, ()):
            if isinstance(a, str):
                r |= {a}
            elif a[1] < len(x[5]):
                r |= fl.cls(x[5][a[1]], b, C) if a[0] == 'p' else fl.content(x[5][a[1]], b, C)
        return r

    def run(self):
        fns = list(self.prog.allfns())
        for f in fns:
            self.flows[f] = FnFlow(self, f)
        incoming = {}
        for rnd in range(12):
            ch = False
            for f in fns:
                fl = self.flows[f]
                C = fl.classes()
                rc = frozenset()
                for b in f.rpo:
                    t = f.blocks[b][-1]
                    if t[0] == 'ret' and t[4] and t[2] != 'void':
                        rc |= fl.cls(t[4][0], b, C)
                if f in self.skip:
                    rc = frozenset()
                if rc - self.ret.get(f, frozenset()):
                    self.ret[f] = self.ret.get(f, frozenset()) | rc
                    ch = True
                sk = set()
                if f in self.skip:
                    if self.skip[f] - self.sink.get(f, set()):
                        self.sink[f] = self.skip[f]
                        ch = True
                    continue
                for x, b, c, text in fl.sinks():
                    for a in c:
                        if isinstance(a, tuple):
                            if x[0] == 'call':
                                g = self.prog.fn(ir.callee(x), f.unit)
                                kinds = {s[2] for s in self.sink.get(g, ())}
                            else:
                                kinds = {'L', 'F'}
                            sk |= {(a[0], a[1], k) for k in kinds}
                if sk - self.sink.get(f, set()):
                    self.sink[f] = self.sink.get(f, set()) | sk
                    ch = True
                # globals
                for b in f.rpo:
                    for x in f.blocks[b]:
                        if x[0] == 'store' and x[7] == 'i64':
                            p = fl.place(x[5])
                            if p and p[0] == 'A' and f not in self.skip:
                                k = fl.aoff(x[5])
                                if k is not None:
                                    c = frozenset(a if isinstance(a, str) else 'L' for a in fl.cls(x[4], b, C))
                                    for code in fl.codes | {''}:
                                        q = f.unit.name, code, k
                                        if q not in self.acls or c - self.acls[q]:
                                            self.acls[q] = self.acls.get(q, frozenset()) | c
                                            ch = True
                            if p and p[0] == 'g':
                                c = fl.cls(x[4], b, C)
                                c = frozenset(a if isinstance(a, str) else 'L' for a in c if isinstance(a, str) or f in self.entries and a[0] == 'p' and a[1] in self.entries[f])
                                if c - self.gcls.get(p[1], frozenset()):
                                    self.gcls[p[1]] = self.gcls.get(p[1], frozenset()) | c
                                    ch = True
            if not ch:
                return
        raise AnalysisBroken('no fixpoint')

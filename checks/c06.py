"""Every change of a term, of a constraint variable or of a backtrackable global variable is undone on backtracking."""
import re

from checks import c05
from gpl import inline, ir, prep, vn

RULE = ('must-dataflow over the control-flow graph of every function that binds a term cell or changes a constraint variable: '
        'on every path to the store, the old content of that very cell has been pushed on the trail, or a comparison has shown '
        'the cell to be newer than the last choice point (heap cell above the heap limit, local cell above the choice point, '
        'constraint cell above its saved stack top, range or chains stamp equal to the current stamp); the formats pushed are '
        'those the function that unwinds the trail pops')

# functions whose stores in term memory are not bindings that outlive the call
SCRATCH = {
    'G_Inc_Dec': 'global variables are documented to keep their value on backtracking (but for g_assignb)',
    'G_Set_Bit': 'as G_Inc_Dec',
    'G_Reset_Bit': 'as G_Inc_Dec',
    'Pl_Untrail': 'restores the old content',
    'Pl_Copy_Term': 'fills a fresh area',
    'Copy_Term_Rec': 'binds the variables of the source to mark them and restores them from its own stack',
    'Pl_Acyclic_Term_1': 'marks sub-terms and restores them',
    'Pl_Sort_List_1': 'sorts the list it has just copied in place (sort/1, msort/1 are documented as destructive)',
    'Group': 'unlinks elements of the private solution list of bagof/setof',
    'Pl_Retractall_If_Empty_Head_2': 'resets variables of the head it has just checked to be distinct unbound variables',
}
QUEUE = (16, 32)           # propagation mask and queue link: emptied before each propagation, never read across backtracking


def casts(D, o):
    while isinstance(o, int) and o in D and D[o][1][0] in ('inttoptr', 'ptrtoint', 'bitcast', 'freeze'):
        o = D[o][1][4][0]
    return o


class Flow:
    def __init__(self, prog, K, f, fdv_args, fdvparams, ranges):
        self.prog, self.K, self.orig = prog, K, f
        self.f = inline.expand(prog, f)
        self.D = self.f.defs
        self.fdv_args = fdv_args
        self.fdvparams = fdvparams
        self.ranges = ranges
        self._cls = {}
        self._same = {}
        self._loads = None

    def canon(self, o):
        """the first of several loads of the same cell with no store in between"""
        D = self.D
        if o not in self._same:
            self._same[o] = o
            if D[o][1][0] == 'load':
                if self._loads is None:
                    self._loads = {}
                    for b in self.f.rpo:                     # definitions come before uses
                        for i in self.f.blocks[b]:
                            if i[0] == 'load':
                                self._same[i[1]] = i[1]
                                k = self.rawkey(i[4])
                                for v, pb, pi in self._loads.get(k, ()):
                                    if self.nostore((pb, pi), (b, i)):
                                        self._same[i[1]] = self._same.get(v, v)
                                        break
                                self._loads.setdefault(k, []).append((i[1], b, i))
                            elif i[0] == 'store' and isinstance(i[4], int):
                                self._loads.setdefault(self.rawkey(i[5]), []).append((i[4], b, i))
        return self._same[o]

    def rawkey(self, o):
        off = 0
        D = self.D
        while True:
            o = casts(D, o)
            if isinstance(o, int) and o in D and D[o][1][0] == 'getelementptr' and not D[o][1][6]:
                off += D[o][1][5]
                o = D[o][1][4]
                continue
            if isinstance(o, int) and o in D and D[o][1][0] == 'load' and self.canon(o) != o:
                o = self.canon(o)
                continue
            return (repr(o), off)

    def nostore(self, l, o):
        f, D = self.f, self.D
        bl, il = l
        bo, io = o
        if not f.dominates(bl, bo):
            return False
        region = set()
        if bl != bo:
            fwd, st = set(), list(f.succ[bl])
            while st:
                x = st.pop()
                if x not in fwd and x != bl:
                    fwd.add(x)
                    st.extend(f.succ[x])
            st = list(f.pred[bo])
            while st:
                x = st.pop()
                if x in fwd and x not in region:
                    region.add(x)
                    st.extend(f.pred[x])
            if bo in region and bo != bl:
                return False
            seq = [i for x in region for i in f.blocks[x]]
            b = f.blocks[bl]
            seq += b[pos(b, il) + 1:]
            b = f.blocks[bo]
            seq += b[:pos(b, io)]
        else:
            b = f.blocks[bl]
            seq = b[pos(b, il) + 1:pos(b, io)]
        for i in seq:
            if i[0] == 'call' and not (ir.callee(i) or '').startswith('llvm.'):
                return False
            if i[0] == 'store' and self.regaddr0(i[5]) is None:
                return False
        return True

    def regaddr0(self, a):
        """store to a register of the machine, or through the trail register"""
        D = self.D
        a = casts(D, a)
        off = 0
        while isinstance(a, int) and a in D and D[a][1][0] == 'getelementptr' and not D[a][1][6]:
            off += D[a][1][5]
            a = D[a][1][4]
        if isinstance(a, int) and a in D and D[a][1][0] == 'load':
            p = D[a][1][4]
            if isinstance(p, list) and p[:2] == ['g', 'pl_reg_bank']:
                return self.K.off.get(off, 'reg')
            r = self.regaddr0(p)
            return 'stack' if r == 'TR' else None
        return None

    # ---- addresses
    def key(self, o):
        """(base, offset) of an address; base is an ssa id, or ('ld', base, off) for a load from a keyed address"""
        D = self.D
        off = 0
        for _ in range(60):
            o = casts(D, o)
            if isinstance(o, int) and o in D:
                x = D[o][1]
                if x[0] == 'getelementptr' and not x[6]:
                    off += x[5]
                    o = x[4]
                    continue
                if x[0] in ('add', 'sub') and isinstance(x[4][1], list) and x[4][1][0] == 'c':
                    off += x[4][1][1] if x[0] == 'add' else -x[4][1][1]
                    o = x[4][0]
                    continue
                if x[0] == 'or' and isinstance(x[4][1], list) and x[4][1][0] == 'c' and 0 <= x[4][1][1] < 4:
                    off += x[4][1][1]
                    o = x[4][0]
                    continue
                if x[0] == 'load' and self.canon(o) != o:
                    o = self.canon(o)
                    continue
            break
        if isinstance(o, int):
            return (o, off)
        if isinstance(o, list) and o[0] == 'g':
            return (('g', o[1]), off + (o[2] if len(o) > 2 else 0))
        return (('?', repr(o)), off)

    def reg(self, o):
        """name of the machine register whose value o is (a load of the register bank), with added constant"""
        b, off = self.key(o)
        if isinstance(b, int) and b in self.D and self.D[b][1][0] == 'load':
            r = self.regaddr(self.D[b][1][4])
            if r:
                return r, off
        return None, 0

    def regaddr(self, a):
        b, off = self.key(a)
        if isinstance(b, int) and b in self.D and self.D[b][1][0] == 'load':
            p = self.key(self.D[b][1][4])
            if p == (('g', 'pl_reg_bank'), 0):
                return self.K.off.get(off)
        return None

    # ---- classes of base pointers
    def cls(self, b, depth=0):
        """'term' (untagged word), 'fdv' (constraint variable), ('arg', i), 'new' or None"""
        if b in self._cls:
            return self._cls[b]
        self._cls[b] = None
        r = self._class(b, depth)
        self._cls[b] = r
        return r

    def _class(self, b, depth):
        D = self.D
        if not isinstance(b, int):
            return None
        if b not in D:
            if b < len(self.f.args) and self.f.args[b] == 'p':
                return 'fdv' if b in self.fdv_args else ('arg', b)
            return None
        x = D[b][1]
        if x[0] == 'phi':
            cs = set()
            for _, v in x[4]:
                k = self.key(v)[0]
                if k != b:
                    cs.add(self.cls(k, depth + 1))
            cs.discard(None)
            cs.discard('new')
            if 'fdv' in cs:
                return 'fdv'
            if 'term' in cs:
                return 'term'
            return cs.pop() if len(cs) == 1 else None
        if x[0] == 'getelementptr':
            return self.cls(self.key(x[4])[0], depth + 1)
        if x[0] == 'call':
            return 'new' if ir.callee(x) in self.newf else None
        if x[0] == 'load':
            if self.reg(b)[0] in ('H', 'CS', 'TR', 'E', 'B'):
                return 'new'
            return None
        return None

    def isterm(self, addr):
        """the address is obtained by untagging a word"""
        D = self.D
        seen = set()
        st = [addr]
        while st:
            o = st.pop()
            if not isinstance(o, int) or o in seen or o not in D:
                continue
            seen.add(o)
            x = D[o][1]
            if x[0] == 'call' and re.match(r'Pl_Rd_(Compound|List|Callable)\w*$', ir.callee(x) or '') and x[2] == 'p':
                return o
            if x[0] == 'inttoptr':
                if isinstance(x[4][0], int) and x[4][0] in D and D[x[4][0]][1][0] == 'ptrtoint':
                    st.append(D[x[4][0]][1][4][0])
                    continue
                return o
            if x[0] == 'getelementptr':
                st.append(x[4])
            elif x[0] == 'phi':
                st.extend(v for _, v in x[4])
            elif x[0] in ('bitcast', 'select', 'freeze'):
                st.extend(x[4])
        return None

    def under(self, o):
        """(base, offset, exact) below variable-index steps too"""
        b, off = self.key(o)
        exact = True
        for _ in range(20):
            if isinstance(b, int) and b in self.D and self.D[b][1][0] == 'getelementptr':
                x = self.D[b][1]
                b, o2 = self.key(x[4])
                off += o2 + x[5]
                exact = False
                continue
            break
        return b, off, exact

    newf = frozenset()

    def under0(self, o):
        """as under, without looking through loads"""
        off = 0
        D = self.D
        while isinstance(o, int) and o in D and D[o][1][0] in ('getelementptr', 'bitcast'):
            if D[o][1][0] == 'getelementptr':
                off += D[o][1][5]
                o = D[o][1][4]
            else:
                o = D[o][1][4][0]
        return o, off, True

    def origin(self, ins):
        """function whose source holds the instruction (expanded helpers keep their lines)"""
        for g in self.f.unit.fns.values():
            ls = [i[3] for b in g.blocks for i in b if i[3]]
            if g.internal and ls and min(ls) <= ins[3] <= max(ls) and g.name in SCRATCH:
                return g.name
        return self.f.name

    def worth(self):
        if self.fdv_args or any(c and c in self.fdvparams for c in (ir.callee(i) for _, i in self.f.calls())):
            return True
        return any(i[0] == 'store' and (self.isterm(i[5]) is not None or self.handle(self.key(i[5])[0])) for b in self.f.blocks for i in b)

    def name(self, b):
        if isinstance(b, int):
            if b < len(self.f.argnames) and self.f.argnames[b]:
                return self.f.argnames[b]
            n = self.orig.names.get(b)
            if n:
                return n
            return 'the cell'
        return str(b[1])

    def mods(self, c, i):
        if not c:
            return ()
        if c.startswith('llvm.mem'):
            return ((0, 8),) if i == 0 else ()
        g = self.prog.fn(c, self.f.unit)
        return sorted(self.mods_of.of(g, i), key=repr) if g is not None else ()

    def refcell(self, b):
        """b is not the address part of a tagged word, nor a constraint variable"""
        d = self.D.get(b)
        if d is None:
            return self.cls(b) != 'fdv'
        if d[1][0] in ('and', 'getelementptr', 'call'):
            return False
        return True

    # ---- facts
    def closure(self, S):
        r = set(S)
        for x in S:
            if x[0] == 'H' and ('B',) + x[1:] in S:
                r.add(('S', x[1], x[2], x[2] + 8))
        return r

    def covered(self, S, b, lo, hi):
        if ('N', b) in S:
            return True
        if isinstance(b, int) and b in self.D and self.D[b][1][0] == 'getelementptr':
            b2, off, exact = self.under((b))          # an index into the block that starts at off
            if ('N', b2) in S or any(x[0] == 'S' and x[1] == b2 and x[2] <= off + lo < x[3] for x in S):
                return True
        iv = sorted((x[2], x[3]) for x in S if x[0] == 'S' and x[1] == b)
        at = lo
        for l, h in iv:
            if l <= at < h:
                at = h
        return at >= hi

    def edge(self, b, s, S):
        """facts added on the edge b -> s"""
        t = self.f.blocks[b][-1]
        if t[0] != 'br' or len(t) < 6 or t[5] == t[6]:
            return S
        return self.cond(t[4], s == t[5], S)

    def cond(self, c, val, S, depth=0):
        D = self.D
        if not isinstance(c, int) or c not in D or depth > 6:
            return S
        x = D[c][1]
        if x[0] in ('zext', 'trunc', 'sext', 'freeze'):
            return self.cond(x[4][0], val, S, depth + 1)
        if x[0] == 'xor' and x[4][1][:2] == ['c', 1]:
            return self.cond(x[4][0], not val, S, depth + 1)
        if x[0] == 'phi':
            # a boolean assembled from several branches: the incoming blocks that can give this value
            alts = []
            for pb, v in x[4]:
                if isinstance(v, list) and v[0] == 'c':
                    if bool(v[1]) == val:
                        alts.append(self.closure(self.outedge(pb, D[c][0])))
                else:
                    alts.append(self.closure(self.cond(v, val, self.outedge(pb, D[c][0]), depth + 1)))
            if alts:
                r = join(alts)
                return S | r
            return S
        if x[0] == 'and' and val or x[0] == 'or' and not val:
            return self.cond(x[4][1], val, self.cond(x[4][0], val, S, depth + 1), depth + 1)
        if x[0] != 'icmp':
            return S
        op, l, r = x[4], x[5], x[6]
        if not val:
            op = {'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult', 'eq': 'ne', 'ne': 'eq'}.get(op, op)
        if op in ('ne', 'eq') and isinstance(r, list) and r[:2] == ['c', 0] and isinstance(l, int) and l in D \
                and D[l][1][0] == 'call' and op == 'eq':
            return S | {('Z', l)}
        if op in ('ne', 'eq') and isinstance(r, list) and r[:2] == ['c', 0] and isinstance(l, int) and l in D \
                and D[l][1][0] in ('zext', 'icmp', 'phi', 'and', 'or', 'trunc', 'xor'):
            return self.cond(l, op == 'ne', S, depth + 1)
        rl, ol = self.reg(l)
        rr, orr = self.reg(r)
        if rl and not rr:
            l, r, rl, rr = r, l, rr, rl
            op = {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}.get(op, op)
            orr = ol
        new = set()
        if rr in ('HB1', 'B', 'LSSA') and orr == 0:
            b, off = self.key(l)
            if rr == 'HB1' and op in ('uge', 'ugt'):
                new.add(('H', b, off))
            if rr == 'B' and op in ('uge', 'ugt') or rr == 'LSSA' and op in ('ult',):
                new.add(('B', b, off))
        elif op in ('uge', 'ugt') and self.csb(r):
            b, off = self.key(l)
            new.add(('N', b))
            new.add(('S', b, off, off + 8))
        elif op == 'eq' and (rr == 'STAMP' and orr == 0):
            lo = self.loadaddr(l)
            if lo is not None and lo[1] in self.ranges:
                new.add(('S', lo[0], lo[1], self.ranges[lo[1]]))
                if lo[1] == min(self.ranges):
                    new.add(('V', lo[0]))
        elif op == 'eq' and isinstance(r, list) and (r[0] == 'null' or r[:2] == ['c', 0]):
            lo = self.loadaddr(l)
            if lo is not None and lo[1] == self.vec:
                new.add(('V', lo[0]))
        return S | new if new else S

    def handle(self, k):
        """cell of the constraint stack that Prolog code knows by its offset"""
        d = self.D.get(k) if isinstance(k, int) else None
        if d is None or d[1][0] != 'getelementptr' or self.loadaddr(d[1][4]) is None:
            return False
        for x in d[1][6]:
            o = strip(self.D, x[0])
            if isinstance(o, int) and o in self.D and self.D[o][1][0] == 'call' and (ir.callee(self.D[o][1]) or '').startswith('Pl_Rd_Integer'):
                return True
        return False

    def noundo(self, v):
        """v is the boolean argument of setarg/4 that asks for no undoing"""
        return self.f.name == 'Pl_Setarg_4' and v in self.D and self.D[v][1][0] == 'call' \
            and ir.callee(self.D[v][1]) == 'Pl_Rd_Boolean_Check' and self.D[v][1][5] == [3]

    def loadaddr(self, o):
        o = casts(self.D, o)
        if isinstance(o, int) and o in self.D and self.D[o][1][0] == 'load':
            return self.key(self.D[o][1][4])
        return None

    def csb(self, o):
        """the saved constraint-stack top of the last choice point"""
        a = self.loadaddr(o)
        if a is None:
            return False
        b, off = a
        return isinstance(b, int) and b in self.D and self.reg(b) == ('B', 0) and off == self.csslot

    def outedge(self, pb, to):
        return self.edge(pb, to, self.out.get(pb, set()))

    # ---- transfer
    def step(self, ins, S):
        D = self.D
        r = ins[1]
        if r is not None and r >= 0 and ins[0] != 'phi':
            if any(x[1] == r for x in S):
                S = {x for x in S if x[1] != r}
        if ins[0] == 'store':
            a = self.reg(ins[5])[0]
            if a == 'TR':
                b, off = self.key(ins[4])
                if isinstance(b, int):
                    tag = off & 7
                    lo = off - tag
                    if tag == 0:
                        # undone by making the cell unbound: right only for a cell that was an unbound variable
                        if self.refcell(b) and lo == 0:
                            S = S | {('S', b, lo, lo + 8)}
                    elif tag == 1:
                        S = S | {('S', b, lo, lo + 8)}
                    elif tag == 2:
                        n = self.lastnb
                        S = S | {('S', b, lo, lo + 8 * (n or 1))}
                        lo2 = self.loadaddr(b)
                        if lo2 is not None and lo2[1] == self.vec:
                            S = S | {('V', lo2[0])}
                v = ins[4]
                v = casts(D, v)
                if isinstance(v, int) and v in D and D[v][1][0] in ('sext', 'zext'):
                    v = D[v][1][4][0]
                self.lastnb = v[1] if isinstance(v, list) and v[0] == 'c' else None
        return S

    def run(self):
        f = self.f
        self.lastnb = None
        rpo = f.rpo
        self.inn, self.out = {0: set()}, {}
        for _ in range(12):
            ch = False
            for b in rpo:
                if b != 0:
                    alts = []
                    for p in f.pred[b]:
                        if p not in self.out:
                            continue
                        S = self.closure(self.edge(p, b, self.out[p]))
                        for i in f.blocks[b]:
                            if i[0] != 'phi':
                                break
                            for pb, v in i[4]:
                                if pb == p:
                                    vb, vo = self.key(v)
                                    add = {self.move(x, vb, vo, i[1]) for x in S if x[1] == vb}
                                    S = {x for x in S if x[1] != i[1]} | {x for x in add if x}
                                    if self.cls(vb) == 'new':
                                        S.add(('N', i[1]))
                        alts.append(S)
                    new = join(alts) if alts else set()
                else:
                    new = set()
                S = set(new)
                for ins in f.blocks[b]:
                    S = self.step(ins, S)
                if self.inn.get(b) != new or self.out.get(b) != S:
                    self.inn[b], self.out[b] = new, S
                    ch = True
            if not ch:
                break

    def move(self, x, vb, vo, phi):
        if x[0] == 'S':
            return (x[0], phi, x[2] - vo, x[3] - vo)
        if x[0] in 'HB':
            return (x[0], phi, x[2] - vo)
        if vo == 0:
            return (x[0], phi)
        return None

    def obligations(self):
        """(instr, base, lo, hi, kind, ok)"""
        res = []
        f = self.f
        for b in f.rpo:
            S = set(self.inn.get(b, ()))
            for ins in f.blocks[b]:
                if ins[0] == 'store' and self.reg(ins[5])[0] != 'TR':
                    k, off = self.key(ins[5])
                    w = size(ins)
                    fresh = self.cls(k) == 'new'
                    if self.isterm(ins[5]) is not None and not fresh and w == 8:
                        # a value written back to the cell it was read from changes nothing
                        ok = self.covered(self.closure(S), k, off, off + w) or any(x[0] == 'Z' and self.noundo(x[1]) for x in S)
                        res.append((ins, k, off, off + w, 'term', ok))
                    elif self.handle(k):
                        res.append((ins, k, off, off + w, 'fdv', self.covered(self.closure(S), k, off, off + w)))
                    elif self.cls(k) == 'fdv':
                        if QUEUE[0] <= off < QUEUE[1]:
                            pass
                        else:
                            ok = self.covered(self.closure(S), k, off, off + w)
                            res.append((ins, k, off, off + w, 'fdv', ok))
                    else:
                        k = self.under(ins[5])[0]
                        la = self.loadaddr(k) if isinstance(k, int) else None
                        if la is not None and la[1] == self.vec and (self.cls(la[0]) == 'fdv'):
                            res.append((ins, la[0], off, off + w, 'vector', ('V', la[0]) in S or ('N', la[0]) in S))
                elif ins[0] == 'call':
                    c = ir.callee(ins)
                    for i, o in enumerate(ins[5]):
                        k, off = self.key(o)
                        if self.cls(k) != 'fdv':
                            continue
                        for lo, hi in self.mods(c, i):
                            if off == 0 and i in self.fdvparams.get(c, ()):
                                continue                     # checked in the callee
                            if lo == 'V':
                                if off + hi != self.vec:
                                    continue
                                ok = ('V', k) in S or ('N', k) in S
                                res.append((ins, k, 0, 0, 'vector', ok))
                                continue
                            if QUEUE[0] <= off + lo < QUEUE[1]:
                                continue
                            ok = self.covered(self.closure(S), k, off + lo, off + hi)
                            res.append((ins, k, off + lo, off + hi, 'fdv', ok))
                S = self.step(ins, S)
        return res



def pos(b, i):
    return next(k for k, x in enumerate(b) if x is i)


def join(alts):
    """facts that hold on every alternative; a new variable needs no other fact"""
    r = set()
    for x in set().union(*alts):
        if all(x in a or ('N', x[1]) in a for a in alts):
            r.add(x)
    return r


def inlined(prog, f):
    """a helper analysed in the functions it is expanded in"""
    return f.internal and f.name not in SCRATCH and not f.addrtaken and inline.small(prog, f)


def size(ins):
    return {'i8': 1, 'i16': 2, 'i32': 4, 'float': 4}.get(ins[7], 8)
class Mods:
    """constant-offset intervals a callee may write through a pointer parameter"""

    def __init__(self, prog, K, vecoff):
        self.prog, self.K, self.vecoff = prog, K, vecoff
        self.memo = {}
        self.flows = {}

    def flow(self, g):
        k = (g.unit.rel, g.name)
        if k not in self.flows:
            w = Flow(self.prog, self.K, g, (), {}, {})
            w.vec, w.csslot = None, None
            self.flows[k] = w
        return self.flows[k]

    def of(self, g, i):
        k = (g.unit.rel, g.name, i)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = set()
        if i >= len(g.args) or g.args[i] != 'p':
            return self.memo[k]
        w = self.flow(g)
        r = set()
        for b in w.f.blocks:
            for ins in b:
                if ins[0] == 'store':
                    base, off, _ = w.under(ins[5])
                    if base == i:
                        r.add((off, off + size(ins)))
                    else:
                        la = w.loadaddr(base) if isinstance(base, int) else None
                        if la is not None and la[0] == i:
                            r.add(('V', la[1]))
                elif ins[0] == 'call':
                    c = ir.callee(ins)
                    if c and c.startswith('llvm.mem'):
                        base, off, _ = w.under(ins[5][0])
                        if base == i:
                            n = ins[5][2]
                            r.add((off, off + (n[1] if isinstance(n, list) and n[0] == 'c' else 8)))
                        continue
                    h = self.prog.fn(c, g.unit) if c else None
                    if h is None:
                        continue
                    for j, o in enumerate(ins[5]):
                        base, off, _ = w.under(o)
                        if base == i:
                            for m in self.of(h, j):
                                r.add(('V', off + m[1]) if m[0] == 'V' else (off + m[0], off + m[1]))
                        else:
                            la = w.loadaddr(base) if isinstance(base, int) else None
                            if la is not None and la[0] == i and any(m[0] != 'V' for m in self.of(h, j)):
                                r.add(('V', la[1]))
        self.memo[k] = r
        return r


def layout(prog, rep):
    """offsets in a constraint variable, from the macros of fd_inst.h"""
    t = open(prep.SRC + '/EngineFD/fd_inst.h', errors='replace').read()
    d = {m.group(1): m.group(2) for m in re.finditer(r'^#define\s+(OFFSET_RANGE|OFFSET_CHAINS|RANGE_SIZE|CHAINS_SIZE)\s+(.+)$', t, re.M)}
    st = prog.structs.get('Range') or next((v for k, v in prog.structs.items() if {'min', 'max', 'vec', 'extra_cstr'} <= {x[0] for x in v}), None)
    if st is None or set(d) != {'OFFSET_RANGE', 'OFFSET_CHAINS', 'RANGE_SIZE', 'CHAINS_SIZE'}:
        raise prep.AnalysisBroken('layout of constraint variables not found')
    size = max(o + s for _, o, s, _ in st) // 64
    size = -(-max(o + s for _, o, s, _ in st) // 64)
    off_r = int(re.sub(r'/\*.*', '', d['OFFSET_RANGE']))
    off_c = off_r + 2 + size
    n = int(re.sub(r'/\*.*', '', d['CHAINS_SIZE']).split()[0])
    vec = next(o for nm, o, s, _ in st if nm == 'vec') // 8 + 8 * (off_r + 2)
    return {8 * off_r: 8 * off_c, 8 * off_c: 8 * (off_c + n)}, vec


def fdvparams(prog, fns):
    """parameters that receive constraint variables: by the name of the parameter, or because a caller passes one"""
    r = {}
    for f in fns:
        for i, n in enumerate(f.argnames):
            if i < len(f.args) and f.args[i] == 'p' and re.match(r'fdv', n or '', re.I):
                r.setdefault(f.name, set()).add(i)
    t = open(prep.SRC + '/EngineFD/fd_inst.h', errors='replace').read()
    for m in re.finditer(r'\b(Pl_\w+)\s*\(([^()]*)\)\s*;', t):
        for i, a in enumerate(m.group(2).split(',')):
            if re.search(r'\*\s*fdv', a, re.I):
                r.setdefault(m.group(1), set()).add(i)
    ch = True
    while ch:
        ch = False
        for f in fns:
            own = r.get(f.name, set())
            for _, ins in f.calls():
                c = ir.callee(ins)
                g = prog.fn(c, f.unit) if c else None
                if g is None:
                    continue
                for i, o in enumerate(ins[5]):
                    if isinstance(o, int) and o in own and i not in r.get(c, ()) and i < len(g.args) \
                            and i < len(g.cty) and 'WamWord' in str(g.cty[i]):
                        r.setdefault(c, set()).add(i)
                        ch = True
    return r


def newfns(prog, K, fns):
    """functions that return memory they have just allocated on a stack"""
    res = set()
    ch = True
    while ch:
        ch = False
        for f in fns:
            if f.name in res or f.ret != 'p':
                continue
            w = Flow(prog, K, f, (), {}, {})
            w.newf = res
            w.vec = w.csslot = None
            rets = [i[4][0] for b in w.f.blocks for i in b if i[0] == 'ret' and i[4]]
            if rets and all(w.cls(w.key(o)[0]) == 'new' for o in rets):
                res.add(f.name)
                ch = True
    return res


def cs_slot(prog, K):
    """offset from the choice point of the saved constraint-stack top"""
    for f in sorted(prog.ext.values(), key=lambda f: f.name):
        if not re.match(r'^Pl_Update_Choice_Point$', f.name):
            continue
        w = Flow(prog, K, f, (), {}, {})
        for b in w.f.blocks:
            for ins in b:
                if ins[0] == 'store' and w.regaddr(ins[5]) == 'CS':
                    a = w.loadaddr(ins[4])
                    if a is not None and isinstance(a[0], int) and w.reg(a[0]) == ('B', 0):
                        return a[1]
    raise prep.AnalysisBroken('slot of the constraint-stack top not found')


def copyloop(w, head):
    """(destination, source, number of words) of a word-copy loop with this header, or None"""
    D, f = w.D, w.f
    phis = {i[1]: i for i in f.blocks[head] if i[0] == 'phi'}
    backs = f.heads.get(head, ())
    if not phis or not backs:
        return None

    def init(i):
        vs = [v for p, v in phis[i][4] if p not in backs]
        return vs[0] if len(vs) == 1 else None
    dst = src = n = None
    body = set()
    st = list(backs)
    while st:
        x = st.pop()
        if x in body:
            continue
        body.add(x)
        if x != head:
            st.extend(f.pred[x])
    for x in body | {head}:
        for i in f.blocks[x]:
            if i[0] == 'store':
                if dst is not None or not (isinstance(i[5], int) and i[5] in phis and isinstance(i[4], int) and D[i[4]][1][0] == 'load'):
                    return None
                dst, src = i[5], D[i[4]][1][4]
                if src not in phis:
                    return None
            elif i[0] == 'call':
                return None
    for i in phis:
        if phis[i][2] != 'p':
            n = i
    if None in (dst, src, n):
        return None
    return init(dst), init(src), init(n)


def strip(D, o):
    while isinstance(o, int) and o in D and D[o][1][0] in ('sext', 'zext', 'trunc', 'inttoptr', 'ptrtoint', 'bitcast'):
        o = D[o][1][4][0]
    return o


def same(w, a, b):
    a, b = strip(w.D, a), strip(w.D, b)
    if a == b or isinstance(a, list) and isinstance(b, list) and a[:2] == b[:2]:
        return True
    if isinstance(a, int) and isinstance(b, int):
        ka, kb = w.key(a), w.key(b)
        if ka == kb:
            return True
        la, lb = w.loadaddr(a), w.loadaddr(b)
        return la is not None and la == lb
    return False


def memcpy(w, i):
    """(dst, src, words) of a memcpy instruction whose length is a number of words"""
    if i[0] != 'call' or not re.match(r'(llvm\.)?mem(cpy|move)', ir.callee(i) or ''):
        return None
    n = i[5][2]
    if isinstance(n, list) and n[0] == 'c':
        return i[5][0], i[5][1], ['c', n[1] // 8]
    if isinstance(n, int) and n in w.D and w.D[n][1][0] in ('mul', 'shl'):
        k = w.D[n][1][4][1]
        if isinstance(k, list) and k[1] == (8 if w.D[n][1][0] == 'mul' else 3):
            return i[5][0], i[5][1], w.D[n][1][4][0]
    return None


def pushes(rep, prog, K, fns):
    """each trail entry is complete: kind 1 follows the old value of the same cell, kind 2 follows a copy of n words of the
    same area and n, kind 3 follows n and a function"""
    for f in fns:
        if f.name == 'Pl_Untrail':
            continue
        w = Flow(prog, K, f, (), {}, {})
        w.vec = w.csslot = None
        if inlined(prog, f):
            continue
        tr = [(b, k) for b in w.f.rpo for k, i in enumerate(w.f.blocks[b]) if i[0] == 'store' and w.reg(i[5]) == ('TR', 0)]
        for b, k in tr:
            ins = w.f.blocks[b][k]
            v = ins[4]
            tag = None
            if isinstance(v, list) and v[0] == 'c':
                tag = 3 if v[1] == 3 else None
            else:
                o = v
                while isinstance(o, int) and o in w.D and w.D[o][1][0] in ('inttoptr', 'ptrtoint'):
                    o = w.D[o][1][4][0]
                if isinstance(o, int) and o in w.D and w.D[o][1][0] == 'or' and isinstance(w.D[o][1][4][1], list):
                    tag = w.D[o][1][4][1][1]
                    v = w.D[o][1][4][0]
            if tag not in (1, 2, 3):
                continue
            # what was pushed before on the straight line to here
            prev = []
            copy = None
            x, y = b, k
            seen = set()
            while len(prev) < 3 and copy is None:
                for j in range(y - 1, -1, -1):
                    i = w.f.blocks[x][j]
                    if i[0] == 'store' and w.reg(i[5]) == ('TR', 0):
                        prev.append(i)
                    mc = memcpy(w, i)
                    if mc and w.reg(mc[0])[0] == 'TR':
                        copy = mc
                        break
                if x in w.f.heads and copyloop(w, x):
                    copy = copyloop(w, x)
                    break
                ps = [p for p in w.f.pred[x]]
                if len(ps) != 1 or ps[0] in seen or x in w.f.heads:
                    break
                seen.add(x)
                x, y = ps[0], len(w.f.blocks[ps[0]])
            rep.count(trail_entries=1)
            where = f.loc(ins)
            ok = False
            if tag == 1 and prev:
                la = w.loadaddr(prev[0][4])
                ok = la is not None and (la == w.key(v))
            elif tag == 2 and prev and copy:
                ok = w.reg(copy[0])[0] == 'TR' and same(w, copy[1], v) and same(w, copy[2], prev[0][4])
            elif tag == 3 and len(prev) > 1 and copy:
                g = prev[0][4]
                isfn = isinstance(g, list) and any(prog.fn(x, f.unit) for x in names(g))
                ok = w.reg(copy[0])[0] == 'TR' and same(w, copy[2], prev[1][4]) and isfn
            if ok:
                rep.sample('%s trail entry of kind %d' % (where, tag))
            else:
                rep.violation('push:%s:%d' % (f.name, tag), '%s: the trail entry of kind %d is not made of what the unwinding function pops '
                              'for it' % (where, tag))


def names(o):
    if isinstance(o, list):
        if o and o[0] == 'g':
            yield o[1]
        for x in o:
            yield from names(x)


def pops(rep, prog, K):
    """what Pl_Untrail does for each kind of entry"""
    f = prog.need('Pl_Untrail')
    w = Flow(prog, K, f, (), {}, {})
    w.vec = w.csslot = None
    F = w.f
    tr = K.addr('TR')
    T0 = vn.atom(('ld', tr, 0))
    T1 = vn.off(T0, -8)
    seen = {}
    E = vn.Eval(prog, F)
    loops = {h: copyloop(w, h) for h in F.heads}
    main = [h for h in F.heads if loops[h] is None]
    if len(main) != 1:
        rep.undecided.append('Pl_Untrail: loop structure not recognised')
        return
    for s in E.paths(start=main[0]):
        if s.end == 'ret':
            continue
        word = vn.atom(('ld', T1, 0))
        tag = None
        for fa in s.facts:
            if fa is None:
                continue
            c, v = fa
            t = tagtest(c, word)
            if t == 'tag':
                tag = 'other' if v == 'default' else v
            elif isinstance(t, int) and v is True:
                tag = t
        if tag is None:
            tag = 'other'
        adr = ('and', word, vn.const(-4))
        adr = vn.atom(adr)
        stores = [(a, v) for a, v, _ in s.stores if a != tr]
        newtr = s.mem.get(tr, T0)
        nb = [h for h in s.visited if loops.get(h)]
        ok = False
        ld = lambda k: vn.atom(('ld', vn.off(T0, -k), 0))
        calls = [c for c in s.calls if c[0] is None]
        if tag == 0:
            ok = newtr == T1 and stores == [(adr, adr)]
        elif tag == 1:
            ok = newtr == vn.off(T0, -16) and stores == [(adr, ld(16))]
        elif tag == 2:
            exp = vn.add(vn.off(T0, -16), vn.scale(ld(16), 8), -1)
            exp2 = vn.add(vn.off(T0, -16), vn.scale(vn.atom(('trunc', 'i32', ld(16))), 8), -1)
            mc = None
            if nb:
                mc = tuple(E.opnd(x, s) for x in loops[nb[0]])
            else:
                for c, args, i in s.calls:
                    m = memcpy(w, i)
                    if m:
                        mc = tuple(E.opnd(x, s) for x in m)
            ok = newtr in (exp, exp2) and mc is not None and mc[0] == adr and mc[1] == newtr and untr(mc[2]) == ld(16)
        elif tag in (3, 'other'):
            exp = vn.add(vn.off(T0, -24), vn.scale(ld(24), 8), -1)
            exp2 = vn.add(vn.off(T0, -24), vn.scale(vn.atom(('trunc', 'i32', ld(24))), 8), -1)
            ok = newtr in (exp, exp2) and len(calls) == 1 and untr(calls[0][1][0]) == ld(24) and calls[0][1][1] == newtr \
                and not stores and E.opnd(calls[0][2][4], s) == ld(16)
        seen.setdefault(tag, []).append(ok)
    rep.count(trail_entry_kinds=len(seen))
    for t in (0, 1, 2):
        if t not in seen:
            rep.violation('pop:%s' % t, 'Pl_Untrail (%s): trail entries of kind %s are not handled' % (f.where, t))
    for t, oks in seen.items():
        if not all(oks):
            rep.violation('pop:%s' % t, 'Pl_Untrail (%s): a trail entry of kind %s is not undone as it was pushed' % (f.where, t))
        else:
            rep.sample('Pl_Untrail: entries of kind %s' % t)


def stamps(rep, prog, K):
    """a new choice point has a stamp no domain or chain has been saved under"""
    n = 0
    for f in sorted(prog.ext.values(), key=lambda f: f.name):
        if not re.match(r'^Pl_Create_Choice_Point\d?$', f.name):
            continue
        for s in vn.Eval(prog, inline.expand(prog, f)).paths(limit=200):
            if s.end != 'ret':
                continue
            n += 1
            if s.mem.get(K.addr('STAMP')) != vn.off(K.init('STAMP'), 1):
                rep.violation('stamp:' + f.name, '%s (%s): the stamp of constraint domains is not advanced with the new choice point' % (f.name, f.where))
    rep.need(n, 1, 'creations of choice points')
    rep.count(stamp_updates=n)


def untr(v):
    if v[0] == 0 and len(v[1]) == 1 and v[1][0][1] == 1 and v[1][0][0][0] == 'trunc':
        return v[1][0][0][2]
    return v


def tagtest(c, word):
    """'tag' when c is word & 3, the number when it is a comparison of it with a number"""
    tag = vn.atom(('and', word, vn.const(3)))
    if c == tag:
        return 'tag'
    if c[0] == 0 and len(c[1]) == 1:
        x = c[1][0][0]
        if x[0] == 'icmp' and x[1] == 'eq' and x[2] == tag and not x[3][1]:
            return x[3][0]
    return None


def reach(F, b):
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st.extend(F.succ[x])
    return seen


def gvars(rep, prog, K):
    """assignments to global variables that must be undone register their undoing"""
    cands = []
    for f in prog.allfns():
        if not f.unit.rel.endswith('BipsPl/g_var_inl_c.c'):
            continue
        cands.append(f)
    if not cands:
        raise prep.AnalysisBroken('global variables: source not found')
    # functions that push an undo call on the trail
    pushers = set()
    for f in cands:
        w = Flow(prog, K, f, (), {}, {})
        w.vec = w.csslot = None
        for b in f.blocks:
            for i in b:
                if i[0] == 'store' and isinstance(i[4], list) and i[4][:2] == ['c', 3] and w.reg(i[5])[0] == 'TR':
                    pushers.add(f.name)
    rep.need(len(pushers), 1, 'functions that register the undoing of a global assignment')
    st = next((v for k, v in prog.structs.items() if {'size', 'val', 'undo'} <= {x[0] for x in v}), None)
    if st is None:
        raise prep.AnalysisBroken('global variables: structure not found')
    fo = {n: o // 8 for n, o, _, _ in st}
    n = 0
    for f in cands:
        if f.name in pushers:
            continue
        calls = [(b, i) for b, i in f.calls() if ir.callee(i) in pushers]
        if not calls:
            continue
        # parameter the registration depends on
        D = f.defs
        pars = set()
        for b in f.rpo:
            t = f.blocks[b][-1]
            if t[0] == 'br' and len(t) > 5:
                p = zero_test(D, t[4])
                if p is not None and p[0] < len(f.args):
                    pars.add(p[0])
        for p in sorted(pars):
            dead = set()
            for b in f.rpo:
                t = f.blocks[b][-1]
                if t[0] == 'br' and len(t) > 5 and t[5] != t[6]:
                    z = zero_test(D, t[4])
                    if z is not None and z[0] == p:
                        dead.add((b, t[5] if z[1] else t[6]))     # edge taken when the flag is 0
            cb = {b for b, _ in calls}
            if not any((b, s) in dead for b in f.rpo for s in f.succ[b]):
                continue
            # does the call depend on the flag: unreachable when the flag is 0?
            alive0 = walk(f, dead, flip=True)
            if cb & alive0:
                continue
            n += 1
            rep.count(global_assignments=1)
            # every return reached with the flag set after a change of the element passes the registration
            w = Flow(prog, K, f, (), {}, {})
            w.vec = w.csslot = None
            chg = set()
            for b in f.rpo:
                for i in f.blocks[b]:
                    if i[0] == 'store' and w.under(i[5])[0] == 0 and w.under(i[5])[1] in (fo['size'], fo['val']):
                        chg.add(b)
                    elif i[0] == 'call' and ir.callee(i) not in pushers and prog.fn(ir.callee(i) or '', f.unit) is not None \
                            and any(o == 0 for o in i[5]) and writes(prog, prog.fn(ir.callee(i), f.unit), i[5].index(0), (fo['size'], fo['val'])):
                        chg.add(b)
            bad = None
            for c in chg:
                seen, st2 = set(), [c]
                while st2 and bad is None:
                    x = st2.pop()
                    if x in seen or x in cb:
                        continue
                    seen.add(x)
                    if f.blocks[x][-1][0] == 'ret':
                        bad = c
                    st2.extend(s for s in f.succ[x] if (x, s) not in dead)
            if bad is not None:
                rep.violation('gvar:%s' % f.name, '%s (%s): a path changes the global variable and returns without registering the undoing '
                              'asked for by %s' % (f.name, f.where, f.argnames[p] if p < len(f.argnames) else p))
            # the values registered are those before any change
            for b, i in calls:
                for o, fld in zip(i[5][1:3], ('size', 'val')):
                    d = D.get(o) if isinstance(o, int) else None
                    la = w.key(d[1][4]) if d and d[1][0] == 'load' else None
                    ok = la == (0, fo[fld]) and all(not f.dominates(c, d[0]) or c == d[0] and first(f.blocks[c], d[1], w, fo) for c in chg)
                    if not ok:
                        rep.violation('gvar:%s:%s' % (f.name, fld), '%s: the %s registered for undoing is not the one before the assignment' % (f.loc(i), fld))
    rep.need(n, 1, 'undoable global assignments')
    # the undo function restores what was registered
    for name in pushers:
        f = next(x for x in cands if x.name == name)
        und = set()
        for b in f.blocks:
            for i in b:
                if i[0] == 'store':
                    und.update(x for x in names(i[4]) if prog.fn(x, f.unit) is not None)
        for s in vn.Eval(prog, f).paths(limit=200):
            rec = {}
            for a, v, i in s.stores:
                if v in (vn.atom(('arg', 0)), vn.atom(('arg', 1)), vn.atom(('arg', 2))):
                    if a[1] and a[1][0][0][0] == 'call':
                        rec[v[1][0][0][1]] = a[0]
            break
        for u in und:
            g = prog.fn(u, f.unit)
            okp = 0
            for s in vn.Eval(prog, g).paths(limit=200):
                U = vn.atom(('ld', vn.atom(('arg', 1)), 0))
                el = vn.atom(('ld', vn.off(U, rec.get(0, 0)), 0))
                isnull = any(fa is not None and fa[1] in (True, False) and fa[0] == vn.atom(('icmp', 'ne' if fa[1] is False else 'eq', el, vn.const(0))) for fa in s.facts)
                if isnull:
                    continue
                okp += 1
                last = {a: v for a, v, i in s.stores if not isinstance(v[0], str)}
                for k, fld in ((1, 'size'), (2, 'val')):
                    v = last.get(vn.off(el, fo[fld]))
                    exp = ('ld', vn.off(U, rec.get(k, -1)))
                    if v is None or not v[1] or v[1][0][0][:2] != exp:
                        rep.violation('gundo:%s' % fld, '%s (%s): the undoing does not restore the %s that was registered' % (g.name, g.where, fld))
            rep.count(undo_paths=okp)
            rep.need(okp, 1, 'paths of the undo function')
    # which predicates ask for it
    for f in cands:
        m = re.match(r'Pl_Blt_G_(Assign\w*|Link)$', f.name)
        if not m:
            continue
        for _, i in f.calls():
            c = ir.callee(i)
            g = prog.fn(c, f.unit) if c else None
            if g is None or not g.internal:
                continue
            for k, nme in enumerate(g.argnames):
                if nme == 'backtrack' and k < len(i[5]):
                    v = i[5][k]
                    want = 1 if m.group(1) in ('Assignb', 'Link') else 0
                    rep.count(assignment_predicates=1)
                    if not (isinstance(v, list) and v[0] == 'c' and v[1] == want):
                        rep.violation('gpred:%s' % f.name, '%s: %s' % (f.loc(i), 'g_assignb and g_link must ask for undoing' if want else 'only g_assignb and g_link ask for undoing'))


def first(block, load, w, fo):
    for i in block:
        if i is load:
            return True
        if i[0] == 'store' and w.under(i[5])[0] == 0 and w.under(i[5])[1] in (fo['size'], fo['val']):
            return False
    return True


def writes(prog, g, k, offs, depth=0):
    """may g change these fields of its parameter k?"""
    if depth > 4:
        return True
    w = Flow(prog, None, g, (), {}, {})
    for b in g.blocks:
        for i in b:
            if i[0] == 'store':
                base, off, _ = w.under0(i[5])
                if base == k and off in offs:
                    return True
            elif i[0] == 'call' and k in i[5]:
                h = prog.fn(ir.callee(i) or '', g.unit)
                if h is not None and h is not g and writes(prog, h, i[5].index(k), offs, depth + 1):
                    return True
    return False


def zero_test(D, c):
    """(value, polarity) when c tests a value against 0; polarity: the test is true when the value is 0"""
    if not isinstance(c, int) or c not in D:
        return None
    x = D[c][1]
    if x[0] == 'icmp' and x[4] in ('eq', 'ne') and isinstance(x[6], list) and x[6][:2] == ['c', 0] and isinstance(x[5], int):
        return x[5], x[4] == 'eq'
    return None


def walk(f, dead, flip):
    """blocks reached when only the dead edges of tested blocks are taken"""
    tested = {b for b, _ in dead}
    seen, st = set(), [0]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for s in f.succ[x]:
            if x in tested and (x, s) not in dead:
                continue
            st.append(s)
    return seen


def run(rep):
    prog = ir.program()
    K = c05.Bank()
    ranges, vec = layout(prog, rep)
    fns = [f for f in prog.allfns() if re.search(r'src/(EnginePl|BipsPl|EngineFD|BipsFD)/', f.unit.rel)]
    fd = [f for f in fns if 'FD/' in f.unit.rel]
    fp = fdvparams(prog, fd)
    newf = newfns(prog, K, fd)
    mods = Mods(prog, K, vec)
    # slot of the saved constraint-stack top in a choice point
    csslot = cs_slot(prog, K)
    Flow.newf = newf
    nt = nf = nv = 0
    fnset = set()
    helpers = set()
    flows = []
    for f in fns:
        own = fp.get(f.name, set()) if 'FD/' in f.unit.rel else set()
        if 'FD/' in f.unit.rel:
            own = own | {i for i, n in enumerate(f.argnames) if i < len(f.args) and f.args[i] == 'p' and n == 'CF'}
        w = Flow(prog, K, f, own, fp, ranges)
        w.vec, w.csslot, w.mods_of = vec, csslot, mods
        if not w.worth() or inlined(prog, f):
            continue
        w.run()
        obs = w.obligations()
        if not obs:
            continue
        for ins, b, lo, hi, kind, ok in obs:
            if f.name in SCRATCH or w.origin(ins) in SCRATCH:
                continue
            fnset.add(f.name)
            rep.count(**{{'term': 'bindings of term cells', 'fdv': 'changes of constraint variables',
                          'vector': 'changes of domain bit-vectors'}[kind]: 1})
            where = f.loc(ins)
            if ok:
                rep.sample('%s [%d..%d) of %s' % (where, lo, hi, w.name(b)))
            else:
                rep.violation('bind:%s:%s:%s' % (f.name, kind, lo), '%s: %s is changed on a path where its old content was not saved on the trail '
                              'and nothing shows it to be newer than the last choice point' % (where, w.name(b) + ('' if kind == 'term' else ' (bytes %d..%d, %s)' % (lo, hi, kind))))
    rep.count(**{'functions that bind': len(fnset)})
    stamps(rep, prog, K)
    pops(rep, prog, K)
    pushes(rep, prog, K, fns)
    gvars(rep, prog, K)
    return rep

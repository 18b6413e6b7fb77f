"""Comparison of two functions too large to be followed as a whole: their blocks are aligned, and only the parts between
aligned blocks that differ are followed, from the aligned edge that enters such a part to the aligned blocks it leaves to.

Values of the aligned blocks are the inputs of both parts, the values that later blocks use and the memory are the results."""
import difflib

from . import ir
from .inline import _map

PURE = {'getelementptr', 'icmp', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sext', 'zext', 'trunc',
        'ptrtoint', 'inttoptr', 'bitcast'}


class Unclear(Exception):
    pass


def weak(ins, plain):
    """an instruction without the values, the blocks and the line"""
    if ins[0] == 'phi':
        return ('phi', ins[2])
    j = _map(ins, lambda o: '?' if isinstance(o, int) else o, lambda b: 0)
    return tuple(j[:1]) + (j[2],) + plain(j[4:])


def operands(ins):
    r = []

    def f(o):
        r.append(o)
        return o
    _map(ins, f, lambda b: b)
    return r


def targets(t):
    if t[0] == 'br':
        return [t[4]] if len(t) == 5 else [t[5], t[6]]
    if t[0] == 'switch':
        return [t[5]] + [c[1] for c in t[6]]
    return []


class Pair:
    def __init__(self, f, r, plain):
        self.f, self.r = f, r
        self.plain = plain
        self.n = len(f.args)
        def keys(fn):
            ks = [[weak(i, lambda x: plain(x, fn.unit)) for i in b] for b in fn.blocks]
            return [tuple(sorted(x for x in k if x[0] == 'phi') + [x for x in k if x[0] != 'phi']) for k in ks]
        kf, kr = keys(f), keys(r)
        self.bm = {}
        for a, b, n in difflib.SequenceMatcher(None, kf, kr, autojunk=False).get_matching_blocks():
            for k in range(n):
                self.bm[a + k] = b + k
        cand = dict(self.bm)
        self.verify()
        grown = True
        while grown and len(cand) - len(self.bm) <= 60:     # blocks left out because of others that are out now
            grown = False
            for a in sorted(set(cand) - set(self.bm)):
                keep = dict(self.bm)
                self.bm[a] = cand[a]
                self.verify()
                if len(self.bm) > len(keep):
                    grown = True
                else:
                    self.bm = keep
                    self.verify()

    def same(self, a, b, soft=None):
        """do operands a of f and b of r agree?"""
        if not isinstance(a, int) or not isinstance(b, int):
            return not isinstance(a, int) and not isinstance(b, int) and \
                self.plain(a, self.f.unit) == self.plain(b, self.r.unit)
        if a < self.n or b < self.n:
            return a == b
        ma, mb = self.f.defs[a][0] in self.bm, self.r.defs[b][0] in self.rbm
        if ma or mb:
            return ma and mb and self.vm.get(a) == b
        if soft is None:
            soft = self.um
        if soft.get(a, b) != b or self.ru.get(b, a) != a:
            return False
        soft[a] = b
        self.ru[b] = a
        return True

    def pairphis(self):
        """the phis of aligned blocks, in any order: by the values that come along aligned edges, and by use"""
        todo = {}
        for a, b in self.bm.items():
            x = [i for i in self.f.blocks[a] if i[0] == 'phi']
            y = [i for i in self.r.blocks[b] if i[0] == 'phi']
            if x:
                todo[a] = x, y
        use = {}
        for a, b in self.bm.items():
            for i, j in zip(self.f.blocks[a], self.r.blocks[b]):
                if i[0] != 'phi':
                    for x, y in zip(operands(i), operands(j)):
                        if isinstance(x, int) and isinstance(y, int):
                            use[x, y] = use.get((x, y), 0) + 1

        def score(i, j, b):
            if i[2] != j[2]:
                return -1
            n = 4 * use.get((i[1], j[1]), 0)
            m = {p: v for p, v in j[4]}
            for p, v in i[4]:
                q = self.bm.get(p)
                if q in m:
                    w = m[q]
                    if isinstance(v, int) and isinstance(w, int):
                        n += v == w if v < self.n or w < self.n else 2 * (self.vm.get(v) == w)
                    elif not isinstance(v, int) and not isinstance(w, int):
                        n += self.plain(v, self.f.unit) == self.plain(w, self.r.unit)
            return n
        for _ in range(4):
            before = dict(self.vm)
            for a, (x, y) in todo.items():
                ss = sorted(((score(i, j, a), -abs(u - v), u, v) for u, i in enumerate(x) for v, j in enumerate(y)), reverse=True)
                fu, fv, pm = set(), set(), {}
                for n, _, u, v in ss:
                    if n >= 0 and u not in fu and v not in fv:
                        fu.add(u)
                        fv.add(v)
                        pm[u] = v
                        self.vm[x[u][1]] = y[v][1]
                self.perm[a] = pm
            if before == self.vm:
                break

    def verify(self):
        while True:
            self.rbm = {b: a for a, b in self.bm.items()}
            self.vm, self.um, self.ru = {}, {}, {}
            for a, b in self.bm.items():
                for i, j in zip(self.f.blocks[a], self.r.blocks[b]):
                    if i[0] != 'phi' and i[1] is not None and i[1] >= 0:
                        self.vm[i[1]] = j[1]
            self.perm = {}
            self.pairphis()
            drop = []
            for a, b in sorted(self.bm.items()):
                for i, j in zip(self.f.blocks[a], self.r.blocks[b]):
                    if i[0] == 'phi':
                        continue
                    if not all(self.same(x, y) for x, y in zip(operands(i), operands(j))):
                        drop.append(a)
                        break
            if not drop:
                return
            for a in drop:
                del self.bm[a]

    def edges(self):
        """the edges out of aligned blocks that do not lead to the same: (block or None, number)"""
        res = []
        if self.bm.get(0) != 0:
            if 0 in self.bm or 0 in self.rbm:
                raise Unclear('the entry')
            res.append((None, 0))
        for a, b in sorted(self.bm.items()):
            for k, (s, t) in enumerate(zip(targets(self.f.blocks[a][-1]), targets(self.r.blocks[b][-1]))):
                if self.bm.get(s) != t or not self.phis(a, s, b, t):
                    res.append((a, k))
        return res

    def phis(self, a, s, b, t):
        for u, v in self.perm.get(s, {}).items():
            i, j = self.f.blocks[s][u], self.r.blocks[t][v]
            x = next(v for p, v in i[4] if p == a)
            y = next(v for p, v in j[4] if p == b)
            if y in (['undef'], ['poison']):
                continue
            if not self.same(x, y):
                return False
        return True

    def region(self, fn, known, start):
        res, work = [], [start]
        while work:
            b = work.pop()
            if b in known or b in res:
                continue
            res.append(b)
            work += targets(fn.blocks[b][-1])
        return res


class Part:
    """the part of one function entered by an edge"""

    def __init__(self, fn, p, k, known, exit, live, phis):
        """known: aligned blocks; exit(block): its number; live(block): the values to be given when it is left to"""
        self.fn, self.p, self.k, self.known, self.exit, self.live, self.phis = fn, p, k, known, exit, live, phis
        self.start = 0 if p is None else targets(fn.blocks[p][-1])[k]
        work, self.region = [self.start], []
        while work:
            b = work.pop()
            if b not in known and b not in self.region:
                self.region.append(b)
                work += targets(fn.blocks[b][-1])
        self.inside = set(self.region)
        self.leaves, self.copied, self.order = [], set(), []

    def need(self, o):
        """a value from outside"""
        if not isinstance(o, int) or o in self.copied or o in self.leaves:
            return
        if o >= len(self.fn.args):
            b, ins = self.fn.defs[o]
            if b in self.inside:
                return
            if ins[0] in PURE and ins[2] in ('i1', 'i8', 'i16', 'i32', 'i64', 'p'):
                self.copied.add(o)
                for x in operands(ins):
                    self.need(x)
                self.order.append(ins)
                return
        self.leaves.append(o)

    def stub(self, pred, m):
        vs = [next(v for p, v in self.fn.blocks[m][u][4] if p == pred) for u in self.phis(m)]
        return vs + [v for v in self.live(m) if isinstance(v, int)]

    def gather(self):
        for b in self.region:
            for i in self.fn.blocks[b]:
                if i[0] == 'phi':
                    for p, v in i[4]:
                        if p in self.inside or p == self.p and b == self.start:
                            self.need(v)
                else:
                    for o in operands(i):
                        self.need(o)
            for s in targets(self.fn.blocks[b][-1]):
                if s in self.known:
                    for v in self.stub(b, s):
                        self.need(v)
        if self.start in self.known:
            for v in self.stub(self.p, self.start):
                self.need(v)

    def build(self, leaves, types, conds):
        """leaves: the inputs in order; conds: [(value, truth)] that hold on entry"""
        fn, K = self.fn, len(leaves)
        vm = {v: i for i, v in enumerate(leaves)}
        n = len(fn.args)

        def fo(o):
            if isinstance(o, int):
                if o in vm:
                    return vm[o]
                if o < n:
                    raise Unclear('an argument that is not an input')
                return o - n + K
            return o

        def nv(ins):
            j = list(ins)
            if j[1] is not None and j[1] >= 0:
                j[1] = j[1] - n + K
            return j
        blocks = []
        entry = [nv(_map(i, fo, lambda b: b)) for i in self.order if i[1] not in vm]
        E = len(conds)                  # blocks 0..E: entry; E+1: excluded
        num = {b: E + 2 + i for i, b in enumerate(self.region)}
        stubs = []

        def go(pred, s):
            if s in num:
                return num[s]
            vs = [fo(v) for v in self.stub(pred, s)]
            stubs.append([['call', -1, 'v', 0, ['g', '__at_%d' % self.exit(s), 0], vs, 1, []], ['unreachable', -1, 'v', 0]])
            return E + 2 + len(self.region) + len(stubs) - 1
        for i, (c, w) in enumerate(conds):
            b = entry if i == 0 else []
            blocks.append(b + [['br', -1, 'v', 0, fo(c)] + ([i + 1, E + 1] if w else [E + 1, i + 1])])
        last = entry if not conds else []
        blocks.append(last + [['br', -1, 'v', 0, go(self.p, self.start)]])
        blocks.append([['unreachable', -1, 'v', 0]])
        body = []
        for b in self.region:
            nb = []
            for i in fn.blocks[b]:
                if i[0] == 'phi':
                    inc = [[num[p], fo(v)] for p, v in i[4] if p in self.inside]
                    if b == self.start:
                        inc += [[E, fo(v)] for p, v in i[4] if p == self.p][:1]
                    j = nv(i)
                    j[4] = inc
                else:
                    j = nv(_map(i, fo, lambda s, b=b: go(b, s)))
                nb.append(j)
            body.append(nb)
        blocks += body + stubs
        f = ir.Fn(fn.name, fn.unit, dict(fn.d, blocks=blocks, args=types))
        return f


def conditions(fn, p, k, known):
    """[(block, truth)]: branches whose outcome is known on the edge"""
    res = []
    if p is None:
        return res
    t = fn.blocks[p][-1]
    if t[0] == 'br' and len(t) > 5 and t[5] != t[6]:
        res.append((p, k == 0))
    b = p
    while b != 0 and b in fn.idom and len(res) < 12:
        d = fn.idom[b]
        t = fn.blocks[d][-1]
        if d in known and t[0] == 'br' and len(t) > 5 and t[5] != t[6]:
            for s, w in ((t[5], True), (t[6], False)):
                if fn.pred[s] == [d] and fn.dominates(s, p):
                    res.append((d, w))
        b = d
    return res


def spelled(fn, o, depth=0):
    """an operand, as far as it is computed without memory"""
    if not isinstance(o, int):
        return str(o)
    if o >= len(fn.args) and depth < 5:
        ins = fn.defs[o][1]
        if ins[0] in PURE:
            return (ins[0], str([x for x in ins[4:7] if not isinstance(x, list)][:1] if ins[0] == 'icmp' else ins[5:6] if ins[0] == 'getelementptr' else ''),
                    tuple(spelled(fn, x, depth + 1) for x in operands(ins)))
        if ins[0] == 'load':
            return ('load', spelled(fn, ins[4], depth + 1))
    return o


def again(fn, ins, part):
    """how many times the part does ins again"""
    n = 0
    for b in part.region:
        for i in fn.blocks[b]:
            if i[0] == ins[0] and (i[4] == ins[4] if i[0] == 'call' else i[2] == ins[2] and spelled(fn, i[4]) == spelled(fn, ins[4])):
                n += 1
    return n


def nocopies(fn):
    """the function without phis of one value"""
    sub = {}

    def fo(o):
        while isinstance(o, int) and o in sub:
            o = sub[o]
        return o
    grown = True
    while grown:
        grown = False
        for b in fn.blocks:
            for i in b:
                if i[0] == 'phi' and i[1] not in sub:
                    vs = [fo(v) for _, v in i[4]]
                    vs = [v for v in vs if v != i[1]]
                    if vs and isinstance(vs[0], int) and all(v == vs[0] for v in vs):
                        sub[i[1]] = vs[0]
                        grown = True
    if not sub:
        return fn
    return ir.Fn(fn.name, fn.unit, dict(fn.d, blocks=[[_map(i, fo, lambda b: b) for i in b if i[1] not in sub] for b in fn.blocks]))


def parts(f, r, plain):
    """[(blocks of f, blocks of r, part of f, part of r)]"""
    f, r = nocopies(f), nocopies(r)
    P = Pair(f, r, plain)
    if 3 * len(P.bm) < 2 * len(f.blocks) and len(f.blocks) - len(P.bm) > 30:
        raise Unclear('too many blocks differ')
    res = []
    es = P.edges()
    if len(es) > 40:
        raise Unclear('too many places differ')

    def ty(fn, v):
        return fn.args[v] if v < len(fn.args) else fn.defs[v][1][2]
    for a, k in es:
        b = None if a is None else P.bm[a]
        pairs = []
        pf = Part(f, a, k, P.bm, lambda s: s, lambda m: [x for x, y in pairs if ok(x, y, m)], lambda m: list(P.perm.get(m, {})))
        pr = Part(r, b, k, P.rbm, lambda s: P.rbm[s], lambda m: [y for x, y in pairs if ok(x, y, P.rbm[m])], lambda m: list(P.perm.get(P.rbm[m], {}).values()))

        def ok(x, y, m):
            return f.dominates(f.defs[x][0], m) and r.dominates(r.defs[y][0], P.bm[m])
        pairs += [(x, y) for x, y in sorted(P.um.items()) if f.defs[x][0] in pf.inside and r.defs[y][0] in pr.inside]
        if a is None:
            # the n-th local variable in memory stands for the n-th
            af, ar = ([i[1] for b in p.region for i in p.fn.blocks[b] if i[0] == 'alloca'] for p in (pf, pr))
            if len(af) != len(ar) or any((x in af or y in ar) and (x not in af or y not in ar or af.index(x) != ar.index(y)) for x, y in P.um.items()):
                raise Unclear('local variables')
        odd = len(set(pf.region) & set(f.heads)) != len(set(pr.region) & set(r.heads))
        pf.gather()
        pr.gather()
        uf, ur = set(pf.leaves), set(pr.leaves)
        cf, cr = [], []
        for d, w in conditions(f, a, k, P.bm) if a is not None else ():
            c, e = f.blocks[d][-1][4], r.blocks[P.bm[d]][-1][4]
            if isinstance(c, int) and isinstance(e, int) and c >= P.n and f.defs[c][1][0] == 'icmp' and f.defs[c][0] in P.bm and P.vm.get(c) == e:
                cf.append((c, w))
                cr.append((e, w))
                pf.need(c)
                pr.need(e)
        # inputs
        back = {y: x for x, y in list(P.vm.items()) + list(P.um.items())}
        lf, lr = [], []
        for v in pf.leaves:
            w = v if v < P.n else P.vm.get(v, P.um.get(v))
            if w is None:
                raise Unclear('a value without counterpart')
            lf.append(v)
            lr.append(w)
        for w in pr.leaves:
            v = w if w < P.n else back.get(w)
            if v is None:
                raise Unclear('a value without counterpart')
            if w not in lr:
                lf.append(v)
                lr.append(w)
        for op in ('load', 'call'):
            n = [sum(x[0] == op for b in p.region for x in p.fn.blocks[b]) for p in (pf, pr)]
            onlyf = any(v >= P.n and f.defs[v][1][0] == op and v in uf and w not in ur for v, w in zip(lf, lr))
            onlyr = any(w >= P.n and r.defs[w][1][0] == op and w in ur and v not in uf for v, w in zip(lf, lr))
            if onlyf and n[1] > n[0] or onlyr and n[0] > n[1]:
                raise Unclear('a value read once or again')
        for v, w in zip(lf, lr):
            if v >= P.n and f.defs[v][1][0] in ('load', 'call') and again(f, f.defs[v][1], pf) != again(r, r.defs[w][1], pr):
                raise Unclear('a value read once or again')
        types = [ty(r, w) for w in lr]
        # a copied value that is an input of the other side is an input of both
        for p, l in ((pf, lf), (pr, lr)):
            p.order = [i for i in p.order if i[1] not in l]
        res.append((set(pf.region), set(pr.region), pf.build(lf, types, cf), pr.build(lr, types, cr), odd,
                    not pf.region and not pr.region and P.bm.get(pf.start) != pr.start))
    return res


def decide(f, r, plain, compare):
    """compare(part of f, part of r) -> equiv.Result.  -> (verdict, text, result): 'equal', 'different' or 'unclear'"""
    try:
        ps = parts(f, r, plain)
    except (Unclear, LookupError, StopIteration, TypeError) as x:
        return 'unclear', str(x) or type(x).__name__, None
    if not ps:
        return 'equal', 'no part differs', None
    group = []                          # parts that touch each other
    for i, p in enumerate(ps):
        mine = [g for g in group if any(p[0] & ps[j][0] or p[1] & ps[j][1] for j in g)]
        group = [g for g in group if g not in mine] + [sum(mine, [i])]
    results = [compare(p[2], p[3]) for p in ps]
    for p, x in zip(ps, results):
        if p[4] and x.bad:
            x.unsure.append('loops: ' + x.bad[0][0])
            x.bad = []
    off = [g for g in group if any(results[j].bad or results[j].unsure or not results[j].paths for j in g)]
    if not off:
        return 'equal', '%d parts' % len(ps), None
    bad = [j for j in off[0] if results[j].bad]
    # code moved from one part to another differs in both; an edge that leads elsewhere does not move
    bad += [j for g in off[1:] for j in g if results[j].bad]
    movable = [g for g in off if any(not ps[j][5] for j in g)]
    if len(movable) > 1 or any(not any(results[j].bad for j in g) for g in off):
        j = next(j for g in off for j in g if results[j].bad or results[j].unsure or not results[j].paths)
        t = results[j].unsure or [results[j].bad[0][0]] if results[j].bad or results[j].unsure else ['']
        return 'unclear', '%d parts of %d differ: %s' % (len(off), len(group), t[0]), None
    return 'different', '', results[bad[0]]

"""Does a function of the program do what a reference function (spec/*.c) does?

Both are followed with gpl.sem from the same arguments.  For every pair of their paths whose conditions can hold together
the results are compared under these conditions: the calls made (in order, with their arguments), the memory left and the
value returned.  Loops are rotated (PASSES) and compared by simulation: the head of the n-th loop met is the same state on
both sides (induction variables are initial value + stride * iteration), an iteration has to do the same and lead back to
it.  Where the loops of the two do not correspond the comparison is left undecided."""
import itertools

from . import sem
from .sem import A, C, Facts, off, scale, sub

PASSES = 'loop-simplify,lcssa,loop(rotate),simplifycfg,instsimplify'
# other forms of the loops: two functions equal in one of them are equal
FORMS = ('merge,' + PASSES, 'simplifycfg,' + PASSES, 'loop-simplify,lcssa,loop(loop-rotate<header-duplication>),simplifycfg,instsimplify',
         'loop-simplify,lcssa,simplifycfg,instsimplify', 'merge,loop-simplify,lcssa,simplifycfg,instsimplify')
OPAQUE = ('?', 'ce', 'xv', 'undef', 'ssa', 'bits')


def hook(m, fn, b, s, init, vals, minit, mvals):
    """canonical names for the state at the head of a loop"""
    nth = len(s.loops)
    body = sem.natural(fn, b)
    defs = {i[1]: i for x in body for i in fn.blocks[x] if isinstance(i[1], int) and i[1] >= 0}
    k = A(('k', nth))
    s.facts.add_ge(k)
    n = 0
    groups = {}
    for ins in fn.blocks[b]:
        if ins[0] == 'phi' and ins[1] in vals and stride(ins[1], [o for pb, o in ins[4] if pb in body], defs) is None:
            groups.setdefault(init[ins[1]], []).append(ins[1])
    names = {}
    for g, (v, rs) in enumerate(groups.items()):
        sizes = vars(m).setdefault('same', {})
        sizes[nth, g] = max(len(rs), sizes.get((nth, g), 0))
        order = vars(m).get('perm', {}).get((nth, g), ())
        for i, r in enumerate(rs):
            names[r] = order[i] + 1 if i < len(order) else i + 1
    for ins in fn.blocks[b]:
        if ins[0] != 'phi' or ins[1] not in vals:
            continue
        r, v = ins[1], init[ins[1]]
        st = stride(r, [o for pb, o in ins[4] if pb in body], defs)
        if st is not None:
            vals[r] = sem.add(v, scale(k, st))
        else:
            n += 1
            vals[r] = A(('loop', nth, v, names[r]))
    vars(m).setdefault('loopvars', {}).setdefault(nth, set()).add(n)
    for e in repeats(m, fn, b, s, init, vals, body, defs):
        s.facts.add_ge(e)
    for a in list(mvals):
        if 'ssa' in kinds(a):
            del mvals[a]
        else:
            r = held(fn, b, a, init, vals, minit, body)
            mvals[a] = A(('loopm', nth, a)) if r is None else vals[r]


def held(fn, b, a, init, vals, minit, body):
    """the register that has the value of a static variable at each arrival at the head"""
    if a[0] or len(a[1]) != 1 or a[1][0][1] != 1 or a[1][0][0][0] != 'g':
        return None
    g = a[1][0][0][1]
    for ins in fn.blocks[b]:
        if ins[0] == 'phi' and ins[1] in vals and init[ins[1]] is not None and init[ins[1]] == minit.get(a):
            for pb, o in ins[4]:
                if pb in body:
                    last = None
                    for i in fn.blocks[pb]:
                        if i[0] == 'store':
                            last = i
                        elif i[0] == 'call':
                            last = None
                    if last is None or last[4] != o or not (isinstance(last[5], list) and last[5][0] == 'g' and last[5][1] == g and not last[5][2]):
                        break
            else:
                return ins[1]
    return None


def root(o, defs):
    """o as a register and a constant"""
    c = 0
    while isinstance(o, int) and o in defs:
        d = defs[o]
        if d[0] in ('add', 'sub') and isinstance(d[4][1], list) and d[4][1][0] == 'c':
            c += d[4][1][1] if d[0] == 'add' else -d[4][1][1]
            o = d[4][0]
        elif d[0] == 'getelementptr' and not d[6]:
            c += d[5]
            o = d[4]
        elif d[0] in ('sext', 'freeze'):
            o = d[4][0]
        elif d[0] == 'phi' and len(d[4]) == 1:
            o = d[4][0][1]
        else:
            break
    return o, c


def repeats(m, fn, b, s, init, vals, body, defs):
    """what the condition to repeat the loop says at its head, when it also holds at first"""
    latch = fn.heads.get(b, ())
    if len(latch) != 1:
        return
    t = fn.blocks[list(latch)[0]][-1]
    if t[0] != 'br' or len(t) < 7 or not isinstance(t[4], int) or t[4] not in defs or (t[5] == b) == (t[6] == b):
        return
    c = defs[t[4]]
    if c[0] != 'icmp':
        return
    neg = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'eq': 'ne', 'ne': 'eq'}
    pred = c[4] if t[5] == b else neg.get(c[4])
    x, y = c[5], c[6]
    if isinstance(y, int) and y in defs and not (isinstance(x, int) and x in defs):
        x, y = y, x
        pred = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
    if pred not in ('slt', 'sgt', 'sle', 'sge', 'ne') or isinstance(y, int) and y in defs:
        return
    lim = m.opnd(fn, y, m.env, s)
    if lim is None:
        return
    xr, xc = root(x, defs)
    for r in list(vals):
        phi = defs.get(r)
        if phi is None or phi[0] != 'phi':
            continue
        ops = [o for pb, o in phi[4] if pb in body]
        st = stride(r, ops, defs)
        if st is None or len(ops) != 1:
            continue
        nr, nc = root(ops[0], defs)
        if nr != xr:
            continue
        for e in ([pred] if pred != 'ne' else ['slt'] if st == 1 else ['sgt'] if st == -1 else []):
            def cond(v):
                d = sub(off(v, xc - nc), lim)
                return {'slt': off(scale(d, -1), -1), 'sgt': off(d, -1), 'sle': scale(d, -1), 'sge': d}[e]
            if s.facts.entails(cond(init[r])):
                yield cond(vals[r])


def stride(r, backs, defs):
    """c when every iteration replaces r by r + c"""
    res = set()
    for o in backs:
        c = 0
        while isinstance(o, int) and o != r and o in defs:
            d = defs[o]
            if d[0] in ('add', 'sub') and isinstance(d[4][1], list) and d[4][1][0] == 'c':
                c += d[4][1][1] if d[0] == 'add' else -d[4][1][1]
                o = d[4][0]
            elif d[0] == 'getelementptr' and not d[6]:
                c += d[5]
                o = d[4]
            elif d[0] in ('sext', 'freeze') or d[0] == 'phi' and len(d[4]) == 1:
                o = d[4][0] if d[0] != 'phi' else d[4][0][1]
            else:
                break
        if o != r:
            return None
        res.add(c)
    return res.pop() if len(res) == 1 else None


def backs(o):
    """state at the head -> state an iteration leads to"""
    _, new, env = o.info
    return {env.get(k): v for k, v in new.items() if (sem.single(env.get(k)) or (0,))[0] == 'loop'}


def nth(o):
    return o.loops.index(o.info[0]) + 1


def kinds(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            acc.add(v[0])
        for x in v:
            kinds(x, acc)
    return acc


def unset(v, loops):
    """v is computed from a variable that was never given a value (a former iteration may have set it if not loops)"""
    if not isinstance(v, tuple) or not v or v[0] in ('loop', 'loopm') and not loops:
        return False
    return v == ('undef',) or any(unset(x, loops) for x in v)


def bounds(f):
    """terms -> constant of the sharpest e >= 0, and the terms known to be some constant"""
    d = {}
    for k, t in f.ge:
        if t not in d or k < d[t]:
            d[t] = k
    return d


def clash(da, db, a, b):
    """an obvious contradiction between the facts a and b"""
    for t, k in db.items():
        n = tuple((x, -c) for x, c in t)
        o = da.get(n)
        if o is not None and o + k < 0:
            return True
    for d1, d2, g in ((da, db, b), (db, da, a)):
        for k, t in g.ne:                           # k + t != 0
            n = tuple((x, -c) for x, c in t)
            lo = [d[t] for d in (d1, d2) if t in d]
            hi = [d[n] for d in (d1, d2) if n in d]
            if lo and hi and min(lo) == k and min(hi) == -k:
                return True
    for x, t in a.truth.items():
        u = b.truth.get(x)
        if u is not None and u != t:
            return True
    return False


def join(a, b):
    f = Facts(a)
    for e in b.ge:
        f.add_ge(e)
    for e in b.ne:
        f.add_ne(e)
    for x, t in b.truth.items():
        sem.ASSERT(A(x), t, f)
    return f if f.close() else None


def simple(f, v, depth=0):
    """v without the truncations and truth values the facts decide"""
    v = f.value(v)
    for x, c in v[1]:
        if x[0] == 'trunc':
            y = simple(f, x[2], depth + 1)
            n = sem.BITS[x[1]]
            if n > 1 and f.entails(off(y, 1 << n - 1)) and f.entails(off(scale(y, -1), (1 << n - 1) - 1)):
                v = sem.add(sub(v, (0, ((x, c),))), scale(y, c))
        elif x[0] in ('and', 'or', 'xor') and depth < 4:
            y = sem.bitop(x[0], simple(f, x[1], depth + 1), simple(f, x[2], depth + 1))
            if y != A(x):
                v = sem.add(sub(v, (0, ((x, c),))), scale(y, c))
    return v


def same(f, a, b, depth=0):
    if a == b:
        return True
    if a is None or b is None:
        return False
    if same1(f, a, b):
        return True
    if depth < 3:
        cs = split(f, simple(f, a), simple(f, b))
        if len(cs) > 1:
            return all(same(g, a, b, depth + 1) for g in cs)
    return False


def same1(f, a, b):
    a, b = simple(f, a), simple(f, b)
    if a == b or f.zero(sub(a, b)):
        return True
    if len(a[1]) == len(b[1]):                  # the same operation on equal operands
        d = sub(a, b)
        xs = d[1]
        if d[0] == 0 and len(xs) == 2 and xs[0][1] == -xs[1][1]:
            return samea(f, xs[0][0], xs[1][0])
    return False


def samea(f, x, y):
    if x == y:
        return True
    if not (isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y)):
        return False
    if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple):
        return same(f, x, y)
    return all(samea(f, p, q) if isinstance(p, tuple) else p == q for p, q in zip(x, y))


def effect(o, pure):
    """calls and final memory of a path"""
    calls = [c for c in o.calls if c[0] not in pure]
    return calls, shared(o.mem)


def shared(mem):
    return {a: v for a, v in mem.items() if v is not None and v != A(('ld', a)) and not local(a)}


def passed(mem, args):
    """the cells of local objects given to a call"""
    objs = {x for v in args if v is not None for x, _ in v[1] if x[0] == 'alloca'}
    return {a: v for a, v in mem.items() if v is not None and local(a) and any(x in objs for x, _ in a[1])}


def memdiff(p, q, f):
    for a in list(p) + [a for a in q if a not in p]:
        x, y = lookup(p, a, f), lookup(q, a, f)
        if not same(f, x, y):
            t = 'leaves %s at %s instead of %s' % (sem.show(x), sem.show(a), sem.show(y))
            # an iteration that goes through memory in another order
            return t if walk(p) == walk(q) else Soft(t)
    return None


def walk(mem):
    """by how much the addresses written move from an iteration to the next"""
    return {(x, c) for a in mem for x, c in a[1] if x[0] == 'k'}


class Soft(str):
    """a difference that may not matter"""


def local(a):
    return any(x[0] == 'alloca' for x, _ in a[1])


def lookup(mem, a, f):
    if a in mem:
        return mem[a]
    for b, v in mem.items():
        if f.zero(sub(a, b)):
            return v
    return A(('ld', a))


def differ(oi, orf, f, pure, relation=None, truth=False):
    """text of a difference under the facts f, or None"""
    if oi.kind != orf.kind:
        return 'it %s instead of %s' % (how(oi), how(orf))
    ci, mi = effect(oi, pure)
    cr, mr = effect(orf, pure)
    if relation is not None:
        return relation(oi, orf, f)
    soft = None
    if [c[0] for c in ci] != [c[0] for c in cr]:
        # calls that change nothing may be made elsewhere or not at all; others in another order: not decided
        di, dr = ([c for c in cs if not (c[5] and c[0] != ('loop',))] for cs in (ci, cr))
        if [c[0] for c in di] == [c[0] for c in dr]:
            soft, ci, cr = Soft('its calls that change nothing differ'), di, dr
        elif sorted(map(repr, (c[0] for c in di))) == sorted(map(repr, (c[0] for c in dr))):
            return Soft('it makes its calls in another order')
    for k in range(max(len(ci), len(cr))):
        x = ci[k] if k < len(ci) else None
        y = cr[k] if k < len(cr) else None
        if x is None:
            return 'it does not call %s' % showc(y) if y[0] != ('loop',) else 'it has no loop'
        if y is None:
            return 'it calls %s' % showc(x) if x[0] != ('loop',) else 'it has another loop'
        if x[0] != y[0] or len(x[1]) != len(y[1]) or not all(same(f, p, q) for p, q in zip(x[1], y[1])) or \
                x[6] is not None and not same(f, x[6], y[6]):
            t = 'it calls %s instead of %s' % (showc(x), showc(y))
            return Soft(t) if swapped(ci, cr, k, f) else t
        t0 = memdiff(shared(x[4]), shared(y[4]), f) or memdiff(passed(x[4], x[1]), passed(y[4], x[1]), f)
        if t0 is not None:
            t = t0
            t = 'before %s it %s' % ('a loop' if x[0] == ('loop',) else 'calling ' + showc(x), t)
            if x[5] and y[5] or isinstance(t0, Soft):
                soft = soft or Soft(t)
            else:
                return t
    if oi.kind == 'back':
        if nth(oi) != nth(orf):
            return 'it repeats another loop'
        p, q = backs(oi), backs(orf)
        for x in set(p) & set(q):
            if not same(f, p[x], q[x]):
                return 'an iteration leaves %s instead of %s' % (sem.show(p[x]), sem.show(q[x]))
    if oi.kind == 'ret' and not (oi.value is None and orf.value is None) and not same(f, oi.value, orf.value) and \
            not (truth and sametruth(f, oi.value, orf.value)):
        return 'it returns %s instead of %s' % (sem.show(oi.value), sem.show(orf.value))
    t = memdiff(mi, mr, f)
    return type(t)('it ' + t) if t is not None else soft


def peeled(a, b):
    """b calls before a loop what a calls in it"""
    for k, x in enumerate(a):
        if k >= len(b):
            return False
        if x[0] != b[k][0]:
            return x[0] == ('loop',) and any(y[0] == b[k][0] for y in a[k + 1:]) and any(y[0] == ('loop',) for y in b[k + 1:])
    return False


def sametruth(f, a, b):
    """a and b are both zero or both not"""
    if a is None or b is None:
        return False
    for t in (True, False):
        for more in sem._m.alts(a, t):
            g = Facts(f)
            sem.ASSERT(a, t, g)
            for q, u in more:
                sem.ASSERT(q, u, g)
            if not g.close():
                continue
            for h in split(g, b):
                v = simple(h, b)
                if not (h.nonzero(v) if t else h.zero(v)):
                    return False
    return True


def swapped(ci, cr, k, f):
    """the call k of the one is a later call of the other, and the other way round"""
    def eq(x, y):
        return x[0] == y[0] and len(x[1]) == len(y[1]) and all(same(f, p, q) for p, q in zip(x[1], y[1]))
    return any(eq(ci[k], y) for y in cr[k + 1:]) and any(eq(x, cr[k]) for x in ci[k + 1:])


def recursion(o, p, name):
    """what one side repeats, the other does by calling itself last"""
    r = [x for x in (o, p) if x.kind == 'ret']
    return {o.kind, p.kind} == {'ret', 'back'} and bool(r[0].calls) and r[0].calls[-1][0] == name


class Loose:
    """a path without the distinction of reads before and after calls, its local objects numbered as they are given to calls"""

    def __init__(self, o):
        self.memo = {}
        self.local = {}
        for c in o.calls:
            for v in c[1]:
                self.number(v)
        self.kind, self.info, self.loops, self.ins, self.fn = o.kind, o.info, o.loops, o.ins, o.fn
        self.value = self.go(o.value)
        self.mem = self.mems(o.mem)
        self.calls = [(c[0], self.go(c[1]), c[2], c[3], self.mems(c[4]), c[5], self.go(c[6])) for c in o.calls]
        if o.kind == 'back':
            key, new, env = o.info
            self.info = key, {k: self.go(v) for k, v in new.items()}, {k: self.go(v) for k, v in env.items()}
        self.facts = Facts()
        for e in o.facts.ge:
            self.facts.add_ge(self.go(e))
        for e in o.facts.ne:
            self.facts.add_ne(self.go(e))
        for x, t in o.facts.truth.items():
            sem.ASSERT(A(self.go(x)), t, self.facts)

    def mems(self, mem):
        return {self.go(a): self.go(v) for a, v in mem.items()}

    def number(self, v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'alloca':
                self.local.setdefault(v, ('alloca', 'n%d' % len(self.local)))
            else:
                for x in v:
                    self.number(x)

    def go(self, v):
        if not isinstance(v, tuple) or not v:
            return v
        r = self.memo.get(v)
        if r is None:
            if v[0] == 'ld' and len(v) == 3:
                r = ('ld', self.go(v[1]))
            elif v[0] == 'alloca' and len(v) == 2:
                r = self.local.get(v, v)
            elif len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], tuple):
                r = C(v[0])
                for x, c in v[1]:
                    r = sem.add(r, scale(A(self.go(x)), c))
            else:
                r = tuple(self.go(x) for x in v)
            self.memo[v] = r
        return r


def loosely(a, b, pure, relation, truth):
    """no difference is left when they are compared loosely"""
    a, b = Loose(a), Loose(b)
    if not a.facts.close() or not b.facts.close():
        return True
    f = join(a.facts, b.facts)
    return f is None or all(differ(a, b, g, pure, relation, truth) is None for g in (split(f, a.value, b.value) if a.kind == 'ret' else [f]))


def how(o):
    return 'returns' if o.kind == 'ret' else 'calls %s' % o.calls[-1][0] if o.kind == 'stop' and o.calls else o.kind


def showc(c):
    if c[0] == ('loop',):
        return 'the loop'
    if c[0] is None and len(c) > 6:
        return '(%s)(%s)' % (sem.show(c[6]), ', '.join(sem.show(x) for x in c[1]))
    return '%s(%s)' % (c[0], ', '.join(sem.show(x) for x in c[1]))


def facts_text(f, n=6):
    ts = ['%s >= 0' % sem.show(e) for e in f.ge] + ['%s != 0' % sem.show(e) for e in f.ne]
    return ', '.join(ts[:n]) or 'always'


def truths(v):
    for x, _ in v[1]:
        if x[0] in ('and', 'or', 'xor'):
            yield from truths(x[1])
            yield from truths(x[2])
        else:
            yield x


def split(f, *vs):
    """the cases in which the truth values in vs are known"""
    for v in vs:
        if v is None:
            continue
        for x in truths(f.value(v)):
            if x[0] in ('andb', 'orb', 'xorb', 'icmp') and x not in f.truth:
                if x[0] == 'icmp' and all(w == v for w in vs if w is not None):
                    continue
                res = []
                for t in (True, False):
                    for more in sem._m.alts(A(x), t):
                        g = Facts(f)
                        g.truth[x] = t
                        if x[0] != 'xorb':
                            sem.ASSERT(A(x), t, g)
                        for q, u in more:
                            sem.ASSERT(q, u, g)
                        if g.close():
                            res += split(g, *vs)
                return res
    return [f]


def undefined(o):
    """the reference function says nothing here"""
    return o.kind == 'stop' and bool(o.calls) and o.calls[-1][0] == 'ref_undefined'


class Result:
    def __init__(self):
        self.pairs = self.paths = 0
        self.bad = []           # (text, facts, impl out)
        self.unsure = []


def compare(machine, fn, rfn, args, facts=None, mem=None, pure=(), relation=None, rargs=None):
    """machine(): a fresh sem.Machine.  Loop variables of the same initial value are matched in every way"""
    first, sizes = compare1(machine, fn, rfn, args, facts, mem, pure, relation, rargs, {})
    todo = [(k, p) for k, n in sorted(sizes.items()) if 1 < n <= 4 for p in itertools.permutations(range(n))]
    best, chosen, tries = first, {}, 0
    while best.bad and tries < 12:
        found = None
        for k, p in todo:
            if k in chosen:
                continue
            tries += 1
            r, _ = compare1(machine, fn, rfn, args, facts, mem, pure, relation, rargs, {**chosen, k: p})
            if len(r.bad) < len((found or (0, best))[1].bad):
                found = (k, p), r
                if not r.bad:
                    return r
        if found is None:
            break
        chosen[found[0][0]] = found[0][1]
        best = found[1]
    return best


def compare1(machine, fn, rfn, args, facts, mem, pure, relation, rargs, perm):
    res = Result()
    try:
        mi, mr = machine(), machine()
        mi.perm = perm
        oi = mi.run(fn, args, facts, mem)
        orf = mr.run(rfn, rargs or args, facts, mem)
    except sem.Limit as x:
        res.unsure.append('too many paths (%s)' % x)
        return res, {}
    res.paths = len(oi)
    shape = lambda os: {(len(o.loops), o.kind) for o in os if not undefined(o)}
    back = lambda os: {x for x in shape(os) if x[1] == 'back'}
    parallel = shape(oi) == shape(orf) and vars(mi).get('loopvars') == vars(mr).get('loopvars')
    nearly = back(oi) == back(orf) and vars(mi).get('loopvars') == vars(mr).get('loopvars')
    truth = (fn.cty or [None])[0] == (rfn.cty or [None])[0] == 'Bool'
    dr = [bounds(b.facts) for b in orf]
    shifted = any(peeled(a.calls, b.calls) or peeled(b.calls, a.calls) for a in oi for b in orf)
    for a in oi:
        hit = False
        da = bounds(a.facts)
        for b, db in zip(orf, dr):
            if clash(da, db, a.facts, b.facts):
                continue
            f = join(a.facts, b.facts)
            if f is None:
                continue
            hit = True
            if undefined(b):
                continue
            res.pairs += 1
            t = None
            for f in split(f, a.value, b.value) if a.kind == 'ret' else [f]:
                t = differ(a, b, f, pure, relation, truth)
                if t is not None:
                    break
            if t is None:
                continue
            if isinstance(t, Soft):
                res.unsure.append(t)
                continue
            ks = kinds((tuple(f.ge), tuple(f.ne), tuple(f.truth)))
            for c in a.calls:
                kinds(c[1], ks)
                kinds(c[6], ks)
            kinds(a.value, ks)
            kr = set()
            for c in b.calls:
                kinds(c[1], kr)
                kinds(c[6], kr)
            kinds((tuple(b.facts.ge), tuple(b.facts.ne)), kr)
            if 'undef' in ks and 'undef' not in kr and 'undef' not in kinds((tuple(f.ge), tuple(f.ne), tuple(f.truth))) and \
                    unset((a.value, tuple((c[1], c[6]) + tuple(shared(c[4]).values()) for c in a.calls)), parallel):
                ks.discard('undef')
                t += ', with a variable that has no value'
            if recursion(a, b, fn.name) or shifted and (a.kind != b.kind or len(a.loops) != len(b.loops) or 'the loop' in t) or \
                    (a.peeled or b.peeled) and len(a.loops) != len(b.loops) or not (parallel or nearly and len(a.loops) == len(b.loops) or not a.loops and not b.loops) or any(k in ks and k not in kr for k in OPAQUE) or loosely(a, b, pure, relation, truth):
                res.unsure.append(t)
            else:
                res.bad.append((t, f, a))
        if not hit:
            res.unsure.append('a path without counterpart')
    return res, vars(mi).get('same', {})

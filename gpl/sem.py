"""Path semantics of C functions over exact integers.

run(prog, fn, args, ...) follows the paths of fn (calls of functions with a known body are entered) and gives, for every
way it can end, the result and the facts that hold: linear inequalities over the integer inputs, truth values of
floating comparisons and of tests on opaque values.  A path whose facts are contradictory (linear arithmetic over the
integers, by variable elimination) is dropped.  A loop is cut: it is entered with unknown values for what it changes.

Integer values are linear expressions (const, ((atom, coef), ...)) over atoms; the constructors below (mul, srem, ...)
keep them canonical, so that two ways to write the same value compare equal, and a specification is written with the
same constructors."""
from math import gcd

from . import ir

C = lambda n: (n, ())
BITS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'p': 64}


def A(a):
    return (0, ((a, 1),))


def add(a, b, k=1):
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    d = dict(a[1])
    for x, c in b[1]:
        c = d.get(x, 0) + k * c
        if c:
            d[x] = c
        else:
            d.pop(x, None)
    return (a[0] + k * b[0], tuple(sorted(d.items(), key=repr)))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    return (a[0] * k, tuple((x, c * k) for x, c in a[1])) if k else C(0)


def off(a, n):
    return (a[0] + n, a[1])


def is_const(a):
    return not a[1]


def single(a):
    return a[1][0][0] if len(a[1]) == 1 and a[0] == 0 and a[1][0][1] == 1 else None


def content(a):
    g = 0
    for _, c in a[1]:
        g = gcd(g, c)
    return g


def mul(a, b):
    if is_const(a):
        return scale(b, a[0])
    if is_const(b):
        return scale(a, b[0])
    r = C(a[0] * b[0])
    for x, c in a[1]:
        r = add(r, C(0) if not b[0] else (0, ((x, c * b[0]),)))
        for y, d in b[1]:
            r = add(r, (0, ((mono(x, y), c * d),)))
    for y, d in b[1]:
        if a[0]:
            r = add(r, (0, ((y, d * a[0]),)))
    return r


def mono(x, y):
    fs = (list(x[1:]) if x[0] == 'mul' else [x]) + (list(y[1:]) if y[0] == 'mul' else [y])
    return ('mul',) + tuple(sorted(fs, key=repr))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def srem(a, b):
    if is_const(a) and is_const(b) and b[0]:
        return C(a[0] - b[0] * tdiv(a[0], b[0]))
    if is_const(b) and abs(b[0]) == 1:
        return C(0)
    if is_const(b) and b[0] < 0:
        b = C(-b[0])                    # the sign of the divisor does not change the remainder
    return A(('srem', a, b))


def sdiv(a, b):
    if is_const(a) and is_const(b) and b[0]:
        return C(tdiv(a[0], b[0]))
    if is_const(b) and b[0] == 1:
        return a
    if is_const(b) and b[0] == -1:
        return scale(a, -1)
    if is_const(b) and b[0]:
        d = b[0]
        if a[0] % d == 0 and content(a) % d == 0:
            return (a[0] // d, tuple((x, c // d) for x, c in a[1]))
    # (a' - a' rem b + k*b) / b
    for x, c in a[1]:
        if x[0] == 'srem' and c == -1 and (x[2] == b or is_const(b) and x[2] == C(abs(b[0]))):
            rest = sub(sub(a, (0, ((x, -1),))), x[1])
            k = ratio(rest, b)
            if k is not None:
                return add(sdiv(x[1], b), C(k))
    if is_const(b) and is_const(a):
        return C(tdiv(a[0], b[0]))
    return A(('sdiv', a, b))


def ratio(a, b):
    """k with a = k*b"""
    if a == C(0):
        return 0
    if is_const(b):
        return a[0] // b[0] if is_const(a) and b[0] and a[0] % b[0] == 0 else None
    if [x for x, _ in a[1]] != [x for x, _ in b[1]]:
        return None
    k = a[1][0][1] // b[1][0][1]
    return k if scale(b, k) == a else None


def ashr(a, n):
    """a >> n for a constant n (floor division by 2^n)"""
    d = 1 << n
    if n == 0:
        return a
    # split into a divisible part and the rest
    q = tuple((x, c // d) for x, c in a[1] if c % d == 0)
    r = tuple((x, c) for x, c in a[1] if c % d)
    if not r:
        return (a[0] // d, q)
    s = single((0, r)) if a[0] % d == 0 else None
    if s is not None and s[0] == 'ashr' and not q:
        return A(('ashr', s[1], s[2] + n))
    return add((a[0] // d, q), A(('ashr', (a[0] % d, r), n)))


def bitop(op, a, b):
    """and / or / xor"""
    if is_const(a) and is_const(b):
        return C({'and': a[0] & b[0], 'or': a[0] | b[0], 'xor': a[0] ^ b[0]}[op])
    if is_const(a):
        a, b = b, a
    if is_const(b):
        n = b[0]
        if op == 'or' and n == 0 or op == 'xor' and n == 0 or op == 'and' and n == -1:
            return a
        if op == 'and' and n == 0:
            return C(0)
        if op == 'xor' and n == -1:
            return off(scale(a, -1), -1)
        g = content(a)
        k = (g & -g).bit_length() - 1           # low k bits of a are those of a[0]
        low = (1 << k) - 1
        if op == 'and' and 0 <= n <= low:
            return C(a[0] & n)
        if op == 'and' and n < 0 and ~n <= low and (n & -n) and -n == 1 << (-n).bit_length() - 1:
            return (a[0] & ~low | a[0] & n & low, a[1])
        if op == 'and' and n < 0 and -n & (-n - 1) == 0:
            m = -n
            return scale(ashr(a, m.bit_length() - 1), m)
        if op in ('or', 'xor') and 0 <= n <= low:
            v = a[0] & low
            return (a[0] - v + (v | n if op == 'or' else v ^ n), a[1])
        if op == 'and' and n == 1:
            return A(('and', (a[0] % 2, a[1]), C(1)))
    # common low bits known in both: 2^k*E + c
    ka = content(a) if not is_const(a) else 0
    kb = content(b) if not is_const(b) else 0
    g = gcd(ka, kb) if ka and kb else ka or kb
    k = (g & -g).bit_length() - 1 if g else 0
    if k > 0:
        d = 1 << k
        lo = bitop(op, C(a[0] % d), C(b[0] % d))
        hi = bitop(op, (a[0] // d, tuple((x, c // d) for x, c in a[1])), (b[0] // d, tuple((x, c // d) for x, c in b[1])))
        return add(scale(hi, d), lo)
    if a == b:
        return a if op != 'xor' else C(0)
    # complements: and(~a, ~b) = ~or(a, b)
    x, y = sorted((a, b), key=repr)
    return A((op, x, y))


# ------------------------------------------------------------------ facts
class Facts:
    """conjunction of linear inequalities e >= 0, disequalities e != 0 and truth values of opaque conditions"""
    __slots__ = ('ge', 'ne', 'truth', 'bad', 'known', 'done')

    def __init__(self, other=None):
        self.ge = list(other.ge) if other else []
        self.ne = list(other.ne) if other else []
        self.truth = dict(other.truth) if other else {}
        self.known = set(other.known) if other else set()
        self.done = set(other.done) if other else set()
        self.bad = other.bad if other else False

    def axioms(self, e):
        """facts about the atoms of e, once"""
        for x, _ in e[1]:
            if x in self.known:
                continue
            self.known.add(x)
            me = A(x)
            k = x[0]
            if k == 'srem':
                a, b = x[1], x[2]
                self.axioms(a)
                self.axioms(b)
                if self.entails(a):
                    self._ge(me)
                    self._ge(sub(a, me))
                elif self.entails(scale(a, -1)):
                    self._ge(scale(me, -1))
                    self._ge(sub(me, a))
                if self.entails(off(b, -1)):
                    self._ge(sub(off(b, -1), me))
                    self._ge(add(off(b, -1), me))
                elif self.entails(off(scale(b, -1), -1)):
                    self._ge(sub(off(scale(b, -1), -1), me))
                    self._ge(add(off(scale(b, -1), -1), me))
            elif k == 'sdiv':
                a, b = x[1], x[2]
                self.axioms(a)
                self.axioms(b)
                pa, na = self.entails(a), self.entails(scale(a, -1))
                pb, nb = self.entails(off(b, -1)), self.entails(off(scale(b, -1), -1))
                if pa or na:
                    m = a if pa else scale(a, -1)
                    if pa and pb or na and nb:
                        self._ge(me)
                        self._ge(sub(m, me))
                        if self.entails(off(b, -2)) or self.entails(off(scale(b, -1), -2)):
                            self._ge(sub(m, scale(me, 2)))
                    elif pa and nb or na and pb:
                        self._ge(scale(me, -1))
                        self._ge(add(m, me))
                        if self.entails(off(b, -2)) or self.entails(off(scale(b, -1), -2)):
                            self._ge(add(m, scale(me, 2)))
            elif k == 'ashr' and isinstance(x[2], int):
                d = 1 << x[2]
                self.axioms(x[1])
                self._ge(sub(x[1], scale(me, d)))
                self._ge(off(sub(scale(me, d), x[1]), d - 1))
            elif k in ('and', 'or', 'xor'):
                a, b = x[1], x[2]
                self.axioms(a)
                self.axioms(b)
                sa = 1 if self.entails(a) else -1 if self.entails(off(scale(a, -1), -1)) else 0
                sb = 1 if self.entails(b) else -1 if self.entails(off(scale(b, -1), -1)) else 0
                if k == 'and':
                    if sa > 0:
                        self._ge(me)
                        self._ge(sub(a, me))
                    if sb > 0:
                        self._ge(me)
                        self._ge(sub(b, me))
                    if sa < 0 and sb < 0:
                        self._ge(off(scale(me, -1), -1))
                elif k == 'or':
                    if sa < 0 or sb < 0:
                        self._ge(off(scale(me, -1), -1))
                    if sa > 0 and sb > 0:
                        self._ge(me)
                else:
                    sm = 1 if self.entails(me) else -1 if self.entails(off(scale(me, -1), -1)) else 0
                    signed = lambda v, sg: self._ge(v if sg > 0 else off(scale(v, -1), -1))
                    if sa and sb:
                        signed(me, sa * sb)
                    elif sm and sa:
                        signed(b, sm * sa)
                    elif sm and sb:
                        signed(a, sm * sb)
            elif k in ('b2i', 'icmp', 'fcmp', 'smulo', 'test'):
                self._ge(me)
                self._ge(sub(C(1), me))
            elif k in ('ctz', 'clz', 'ctpop'):
                self._ge(me)
                self._ge(sub(C(64), me))
            elif k == 'range':
                self._ge(off(me, -x[2]))
                self._ge(off(scale(me, -1), x[3]))

    def _ge(self, e):
        g = content(e)
        if g == 0:
            if e[0] < 0:
                self.bad = True
            return
        if g > 1:
            e = (e[0] // g, tuple((x, c // g) for x, c in e[1]))
        if e not in self.ge:
            self.ge.append(e)

    def add_ge(self, e):
        self.axioms(e)
        self._ge(e)

    def add_eq(self, e):
        self.add_ge(e)
        self.add_ge(scale(e, -1))

    def add_ne(self, e):
        if is_const(e):
            self.bad = self.bad or e[0] == 0
            return
        self.axioms(e)
        self.ne.append(e)

    def close(self):
        """sharpen bounds by the disequalities; False when contradictory"""
        if self.bad:
            return False
        for _ in range(4):
            ch = False
            n = len(self.ge)
            for x in [x for x in self.known if x[0] in ('srem', 'sdiv', 'and', 'or', 'xor')]:
                self.known.discard(x)
                self.axioms(A(x))
            ch = len(self.ge) != n
            for e in list(self.ne):
                lo = e in self.ge or self.entails(e)
                hi = scale(e, -1) in self.ge or self.entails(scale(e, -1))
                if lo and hi:
                    return False
                if lo:
                    self.ne.remove(e)
                    self._ge(off(e, -1))
                    ch = True
                elif hi:
                    self.ne.remove(e)
                    self._ge(off(scale(e, -1), -1))
                    ch = True
            for x in list(self.known):
                if x in self.done or x[0] not in ('icmp', 'fcmp', 'smulo', 'andb', 'orb', 'test', 'saddo'):
                    continue
                t = True if self.entails(off(A(x), -1)) else False if self.entails(scale(A(x), -1)) else None
                if t is not None:
                    self.done.add(x)
                    ASSERT(A(x), t, self)
                    ch = True
            for x, t in list(self.truth.items()):
                if x[0] == 'smulo' and (x, t) not in self.done:
                    p = mul(x[1], x[2])
                    if t:
                        self.axioms(p)
                        if self.entails(off(p, 1 << 63)) and self.entails(off(scale(p, -1), (1 << 63) - 1)):
                            return False
                    else:
                        self.done.add((x, t))
                        self.add_ge(off(p, 1 << 63))
                        self.add_ge(off(scale(p, -1), (1 << 63) - 1))
            for x, t in list(self.truth.items()):       # the order of unsigned numbers
                if x[0] == 'icmp' and len(x) == 4 and x[1] == 'ult' and (x, t) not in self.done:
                    y = self.truth.get(('icmp', 'ult', x[3], x[2]))
                    d = sub(x[2], x[3])
                    if t:
                        if y or self.zero(d):
                            return False
                        self.done.add((x, t))
                        self.add_ne(d)
                        ch = True
                    elif y is False:
                        self.done.update(((x, t), (('icmp', 'ult', x[3], x[2]), t)))
                        self.add_ge(d)
                        self.add_ge(scale(d, -1))
                        ch = True
            if self.congruence():
                ch = True
            if not ch:
                break
        return not self.bad and not infeasible(self.ge)

    def congruence(self):
        """equal operands give equal results: an equality that isolates an atom is put into the other atoms"""
        ge, ch = set(self.ge), False
        for e in [e for e in self.ge if scale(e, -1) in ge]:
            zs = [(x, c) for x, c in e[1] if abs(c) == 1]
            if not zs:
                continue
            z, c = max(zs, key=lambda t: (t[0][0] in ('loop', 'arg'), len(repr(t[0])), repr(t[0])))
            rest = scale(sub(e, (0, ((z, c),))), -c)
            put = lambda v: add(v, add(rest, A(z), -1), dict(v[1]).get(z, 0))
            for x in list(self.known):
                if x[0] not in ('and', 'or', 'xor', 'trunc', 'ld') or x == z or (x, e) in self.done:
                    continue
                if x[0] == 'ld':
                    new = put(x[1])
                    y = None if new == x[1] else A(('ld', new) + x[2:])
                elif x[0] == 'trunc':
                    new = put(x[2])
                    y = None if new == x[2] or is_const(new) else A(('trunc', x[1], new))
                else:
                    new = (put(x[1]), put(x[2]))
                    y = None if new == x[1:] else bitop(x[0], *new)
                if y is not None:
                    self.done.add((x, e))
                    d = sub(A(x), y)
                    if not self.zero(d):
                        self.add_eq(d)
                        ch = True
        return ch

    def value(self, v):
        """v with the conditions the facts decide replaced by 0 / 1"""
        r = C(v[0])
        for x, c in v[1]:
            t = None
            if x[0] in ('icmp', 'fcmp', 'smulo', 'andb', 'orb', 'test'):
                t = self.truth.get(x)
                if t is None and x[0] == 'icmp' and len(x) == 3:
                    if x[1] == 'ge':
                        t = True if self.entails(x[2]) else False if self.entails(off(scale(x[2], -1), -1)) else None
                    else:
                        t = False if self.nonzero(x[2]) else True if self.zero(x[2]) else None
            r = add(r, A(x) if t is None else C(int(t)), c)
        return r

    def entails(self, e):
        """e >= 0 follows"""
        if is_const(e):
            return e[0] >= 0
        if self.bad:
            return True
        g = content(e)
        if g > 1:
            e = (e[0] // g, tuple((x, c // g) for x, c in e[1]))
        for f in self.ge:
            if f[1] == e[1] and f[0] <= e[0]:
                return True
        self.axioms(e)
        return infeasible1(linked(self.ge, e) + [off(scale(e, -1), -1)])

    def zero(self, e):
        return self.entails(e) and self.entails(scale(e, -1))

    def nonzero(self, e):
        if self.entails(off(e, -1)) or self.entails(off(scale(e, -1), -1)):
            return True
        return any(e == f or scale(e, -1) == f for f in self.ne)

    def consistent(self):
        return not self.bad and not infeasible(self.ge)


_cache = {}


def infeasible(ges):
    """does a group of facts that share atoms contradict itself?"""
    return any(infeasible1(g) for g in groups(ges))


def infeasible1(ges):
    key = frozenset(ges)
    r = _cache.get(key)
    if r is None:
        if len(_cache) > 200000:
            _cache.clear()
        r = _cache[key] = _infeasible(list(ges))
    return r


def groups(ges):
    """partition by shared atoms"""
    where, gs = {}, []
    for e in ges:
        hit = None
        for x, _ in e[1]:
            g = where.get(x)
            if g is None:
                continue
            while g[0] is not None:
                g = g[0]
            if hit is None:
                hit = g
            elif g is not hit:
                if len(g[1]) > len(hit[1]):
                    g, hit = hit, g
                hit[1].extend(g[1])
                g[0] = hit
                g[1] = None
        if hit is None:
            hit = [None, []]
            gs.append(hit)
        hit[1].append(e)
        for x, _ in e[1]:
            where[x] = hit
    return [g[1] for g in gs if g[0] is None]


def linked(ges, e):
    """those of ges connected to e by shared atoms"""
    xs = {x for x, _ in e[1]}
    left, res = list(ges), []
    while True:
        rest = []
        for g in left:
            if any(x in xs for x, _ in g[1]):
                res.append(g)
            else:
                rest.append(g)
        if len(rest) == len(left):
            return res
        for g in res:
            for x, _ in g[1]:
                xs.add(x)
        left = rest


def _infeasible(ges, budget=400):
    """True when no integer point satisfies all e >= 0 (Fourier-Motzkin with integer tightening; False when unsure)"""
    cur = {}
    for e in ges:
        if not norm(cur, e):
            return True
    while True:
        vs = {}
        for t in cur:
            for x, c in t:
                p = vs.setdefault(x, [0, 0])
                p[c < 0] += 1
        if not vs:
            return False
        m = min(p * n - p - n for p, n in vs.values())
        ms = [v for v, (p, n) in vs.items() if p * n - p - n == m]
        x = ms[0] if len(ms) == 1 else min(ms, key=repr)
        pos, neg, nxt = [], [], {}
        for t, k in cur.items():
            c = dict(t).get(x, 0)
            (pos if c > 0 else neg if c < 0 else [None]).append((c, t, k)) if c else nxt.__setitem__(t, k)
        if len(pos) * len(neg) > budget:
            return False
        for c, t, k in pos:
            for d, u, l in neg:
                e = add(scale((k, t), -d), scale((l, u), c))
                if not norm(nxt, e):
                    return True
        cur = nxt


def norm(cur, e):
    g = content(e)
    if g == 0:
        return e[0] >= 0
    k = e[0] // g
    t = tuple((x, c // g) for x, c in e[1]) if g > 1 else e[1]
    o = cur.get(t)
    if o is None or k < o:
        cur[t] = k
        n = tuple((x, -c) for x, c in t)
        m = cur.get(n)
        if m is not None and m + k < 0:
            return False
    return True


# ------------------------------------------------------------------ floating values
def fop(op, *xs):
    if op == 'fsub' and isconstf(xs[1]):         # x - c = x + (-c)
        t = single(xs[1])[1]
        op, xs = 'fadd', (xs[0], fconst(t[1:] if t.startswith('-') else '-' + t))
    if op in ('fadd', 'fmul'):
        xs = tuple(sorted(xs, key=repr))
    return (0, (((op,) + xs, 1),))


def fconst(s):
    return A(('f', s))


def unsat(v, a, truth, f):
    """no number v (NaN included) makes all the comparisons of v with constants what they are known to be"""
    cs = [(a, truth)] + [(x, t) for x, t in f.truth.items() if x[0] == 'fcmp' and (x[2] == v and isconstf(x[3]) or x[3] == v and isconstf(x[2]))]
    try:
        ks = sorted({float(single(x[k])[1]) for x, _ in cs for k in (2, 3) if isconstf(x[k])})
    except ValueError:
        return False
    pts = ks + [(p + q) / 2 for p, q in zip(ks, ks[1:])] + [ks[0] - 1, ks[-1] + 1] + ([] if nonan(v) else [float('nan')])
    op = {'olt': lambda p, q: p < q, 'ole': lambda p, q: p <= q, 'oeq': lambda p, q: p == q}
    for z in pts:
        val = lambda e: z if e == v else float(single(e)[1])
        if all(x[1] not in op or op[x[1]](val(x[2]), val(x[3])) == t for x, t in cs):
            return False
    return True


def isconstf(v):
    a = single(v)
    return a is not None and a[0] == 'f'


def nonan(v):
    """a number of the program (never a NaN: the results of evaluation are checked), converted exactly or rounded"""
    a = single(v)
    return a is not None and (a[0] in ('f', 'sitofp') or a[0] == 'call' and a[1] == 'Pl_Obtain_Float' or
                              a[0] in ('fpext', 'fptrunc') and nonan(a[2]))


def fcmp(pred, a, b):
    """-> (condition atom, sense); unordered forms are negations of ordered ones"""
    p = pred
    if nonan(a) and nonan(b) and p[0] in 'ou' and p not in ('uno', 'ord'):
        p = p[1:]
        if p in ('gt', 'ge'):
            p = {'gt': 'lt', 'ge': 'le'}[p]
            a, b = b, a
        if p == 'le':
            return ('fcmp', 'olt', b, a), False
        if p == 'lt':
            return ('fcmp', 'olt', a, b), True
        a, b = sorted((a, b), key=repr)
        return ('fcmp', 'oeq', a, b), p == 'eq'
    if p in ('ogt', 'oge', 'ugt', 'uge'):
        p = {'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}[p]
        a, b = b, a
    if p in ('oeq', 'olt', 'ole'):
        if p == 'oeq':
            a, b = sorted((a, b), key=repr)
        return ('fcmp', p, a, b), True
    if p == 'une':
        a, b = sorted((a, b), key=repr)
        return ('fcmp', 'oeq', a, b), False
    if p == 'ult':                              # not (b <= a)
        return ('fcmp', 'ole', b, a), False
    if p == 'ule':
        return ('fcmp', 'olt', b, a), False
    if p == 'uno':
        return ('fcmp', 'uno', a, b), True
    if p == 'ord':
        return ('fcmp', 'uno', a, b), False
    return ('fcmp', p, a, b), True


# ------------------------------------------------------------------ paths
class Limit(Exception):
    pass


class Out:
    """one way a run can end: kind 'ret' (value), 'stop' (a call that does not return: call), 'back' (loop head, vals)"""
    __slots__ = ('kind', 'value', 'facts', 'calls', 'stores', 'ins', 'fn', 'info', 'mem', 'loops', 'peeled')

    def __repr__(self):
        return 'Out(%s %s %s)' % (self.kind, show(self.value) if self.value else self.info, self.calls[-1:] if self.kind == 'stop' else '')


class St:
    __slots__ = ('facts', 'mem', 'calls', 'stores', 'n', 'loops', 'epoch', 'na', 'heads', 'peeled')

    def __init__(self):
        self.facts, self.mem, self.calls, self.stores, self.n = Facts(), {}, [], [], 0
        self.loops, self.epoch, self.na, self.heads, self.peeled = (), 0, 0, {}, 0

    def copy(self):
        s = St()
        s.facts, s.mem, s.calls, s.stores, s.n = Facts(self.facts), dict(self.mem), list(self.calls), list(self.stores), self.n
        s.loops, s.epoch, s.na, s.heads, s.peeled = self.loops, self.epoch, self.na, dict(self.heads), self.peeled
        return s


PURE = {'Pl_Obtain_Float', 'Pl_Classify_Double', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh',
        'atanh', 'exp', 'log', 'log10', 'log2', 'sqrt', 'floor', 'ceil', 'trunc', 'round', 'rint', 'fabs', 'pow', 'atan2', 'fmod', 'modf',
        'llvm.fabs.f64', 'llvm.floor.f64', 'llvm.ceil.f64', 'llvm.trunc.f64', 'lrint', 'lround', 'nearbyint', 'log1p', 'expm1', 'hypot', 'cbrt', 'exp2'}


class Machine:
    def __init__(self, prog, enter=None, pure=PURE, loop=None, limit=600, assume=None):
        self.prog = prog
        self.enter = enter or (lambda g: True)   # which functions are followed
        self.never = set()        # functions to follow even when they do not return
        self.alias = {}             # functions that go by another name in the unit of the caller
        self.pure = pure
        self.loop = loop                         # hook(machine, fn, head, state, phi values) -> phi values assumed, or None
        self.limit = limit
        self.assume = assume
        self.outs = []
        self.versions = None                     # address -> is it a location that calls do not change? (then loads tell before from after a call)
        self.keep = ()                           # calls that change no memory followed here
        self.wrap = []                           # arithmetic that could exceed its type: (fn, ins)
        self.oncall = None
        self.frame = 0
        self.changed = {}                        # loop -> addresses an iteration changes (None: it calls functions)
        self.rec = 1                             # how often a function may be on the stack

    def run(self, fn, args, facts=None, mem=None):
        s = St()
        if facts is not None:
            s.facts = Facts(facts)
        if mem:
            s.mem.update(mem)
        for _ in range(8):
            self.outs = []
            self.steps = self.frame = 0
            n = sum(map(len, self.changed.values()))
            for st, v in self.call(fn, args, s.copy(), ()):
                self.end('ret', st, v, fn)
            if n == sum(map(len, self.changed.values())):
                break
        return self.outs

    def again(self, loop, key, s):
        """what an iteration changed"""
        if self.versions is None:
            return
        mem, epoch, vals = s.heads[key]
        ch = self.changed.setdefault(loop, {})
        if s.epoch != epoch:
            ch[None] = 1
        nth = s.loops.index(key) + 1
        for a in set(s.mem) | set(mem):
            v, w = s.mem.get(a), mem.get(a)
            if v == w or v is None and s.epoch != epoch:
                continue
            if (A(('ld', a)) if w is None else w) == v:
                continue
            if not varies(a, nth):
                ch[a] = 1

    def end(self, kind, st, v, fn, ins=None, info=None):
        o = Out()
        o.kind, o.value, o.facts, o.calls, o.stores, o.ins, o.fn, o.info, o.mem = kind, v, st.facts, st.calls, st.stores, ins, fn, info, st.mem
        o.loops, o.peeled = st.loops, st.peeled
        self.outs.append(o)
        if len(self.outs) > self.limit:
            raise Limit(fn.name)

    def through(self, fn, b, env, s):
        """do the facts tell that the loop of head b is left without an iteration?"""
        body, env, t = natural(fn, b), dict(env), s.copy()
        prev = None
        for _ in range(8):
            for ins in fn.blocks[b]:
                if ins[0] == 'phi':
                    if prev is not None:
                        for pb, o in ins[4]:
                            if pb == prev:
                                env[ins[1]] = self.opnd(fn, o, env, t)
                    continue
                if ins[0] in ('call', 'select', 'store', 'alloca'):
                    return False
                if ins[0] == 'br':
                    break
                if ins[0] in ('switch', 'unreachable', 'ret'):
                    return False
                self.step(fn, ins, env, t)
            if len(ins) <= 5:
                nxt = ins[4]
            else:
                c, ways = self.opnd(fn, ins[4], env, t), []
                for nb, w in ((ins[5], True), (ins[6], False)):
                    for more in self.alts(c, w):
                        f = Facts(t.facts)
                        self.assert_(c, w, f)
                        for q, u in more:
                            self.assert_(q, u, f)
                        if f.close():
                            ways.append(nb)
                            break
                if len(set(ways)) != 1:
                    return False
                nxt = ways[0]
            if nxt not in body:
                return True
            if nxt in fn.heads:
                return False
            prev, b = b, nxt
        return False

    # one frame: yields (state, return value)
    def call(self, fn, args, s, stack):
        if len(stack) > 12:
            raise Limit(fn.name + ': call depth')
        env = dict(enumerate(args))
        stack = stack + (fn.name,)
        self.frame += 1
        frame = self.frame
        work = [(0, None, env, s, frozenset(), 0)]
        heads = fn.heads
        while work:
            b, prev, env, s, seen, at = work.pop()
            self.steps += 1
            if self.steps > 20000:
                raise Limit(fn.name + ': too many steps')
            blk = fn.blocks[b]
            if at == 0 and prev is not None:
                new = {}
                for ins in blk:
                    if ins[0] != 'phi':
                        break
                    for pb, o in ins[4]:
                        if pb == prev:
                            new[ins[1]] = C(o[1] & 1) if ins[2] == 'i1' and isinstance(o, list) and o[0] == 'c' else self.opnd(fn, o, env, s)
                if b in heads and (fn.name, b, frame) not in s.loops and self.versions is not None and self.through(fn, b, {**env, **new}, s):
                    s = s.copy()
                    s.peeled += 1
                elif b in heads:
                    if (fn.name, b, frame) in s.loops:
                        self.again((fn.name, b), (fn.name, b, frame), s)
                        self.end('back', s, None, fn, blk[-1], ((fn.name, b, frame), dict(new), env))
                        continue
                    s = s.copy()
                    s.loops = s.loops + ((fn.name, b, frame),)
                    if self.versions is not None:
                        s.calls.append((('loop',), (), blk[-1], fn, dict(s.mem), False, None))
                        ch = self.changed.get((fn.name, b), {})
                        addrs = [a for a in ch if a is not None]
                        if None in ch:
                            s.epoch += 1
                            for a in list(s.mem):
                                if self.shared(a, ()):
                                    del s.mem[a]
                    else:
                        addrs = self.loop_stores(fn, b, env, s)
                    vals = {k: A(('loop', fn.name, b, k, s.n)) for k in new}
                    mv = {a: A(('loopm', fn.name, b, a, s.n)) for a in addrs}
                    s.n += 1
                    hr = head_reads(fn, b) if self.versions is not None else {}
                    for k in hr:
                        del vals[k]
                    if self.loop is not None:
                        self.env = env
                        self.loop(self, fn, b, s, new, vals, {a: s.mem.get(a) for a in addrs}, mv)
                    s.mem.update(mv)
                    for k, ch in hr.items():
                        vals[k] = self.chain(fn, ch, env, s)
                    new = vals
                    if self.versions is not None:
                        s.heads[(fn.name, b, frame)] = (dict(s.mem), s.epoch, set(new.values()))
                env = dict(env)
                env.update(new)
            i = at
            stopped = False
            while i < len(blk):
                ins = blk[i]
                i += 1
                op = ins[0]
                if op == 'phi':
                    continue
                if op == 'ret':
                    yield s, (self.opnd(fn, ins[4][0], env, s) if ins[4] else None)
                    stopped = True
                    break
                if op == 'call':
                    c = ir.callee(ins)
                    if c and c.startswith('llvm.dbg') or c and c.startswith('llvm.lifetime'):
                        continue
                    av = [self.opnd(fn, o, env, s) for o in ins[5]]
                    g = self.prog.fn(c, fn.unit) if c else None
                    if c in self.alias:
                        g = fn.unit.fns.get(self.alias[c], g)
                    nr = ins[6] or (c and self.prog.is_noreturn(c, fn.unit))
                    if g is not None and (not nr or c in self.never) and c not in self.pure and stack.count(c) < self.rec and len(g.args) == len(av) and self.enter(g):
                        for s2, v in list(self.call(g, av, s.copy(), stack)):
                            e2 = dict(env)
                            if ins[1] >= 0:
                                e2[ins[1]] = v
                            work.append((b, prev, e2, s2, seen, i))
                        stopped = True
                        break
                    if self.versions is None:
                        s.calls.append((c, tuple(av), ins, fn))
                    else:
                        s.calls.append((c, tuple(av), ins, fn, dict(s.mem), c in self.keep or c in self.pure,
                                        None if c else self.opnd(fn, ins[4], env, s)))
                    if self.oncall is not None:
                        self.oncall(c, av, s, ins, fn)
                    if nr:
                        self.end('stop', s, None, fn, ins)
                        stopped = True
                        break
                    if ins[1] >= 0:
                        env[ins[1]] = self.opaque(c, av, ins, s, fn, env)
                    if c not in self.pure and c not in self.keep and not (c or '').startswith('llvm.'):
                        s.epoch += 1
                        for a in list(s.mem):
                            if self.shared(a, av):
                                del s.mem[a]
                    continue
                if op in ('br', 'switch', 'unreachable'):
                    break
                if op == 'select':
                    xs = [C(o[1] & 1) if ins[2] == 'i1' and isinstance(o, list) and o[0] == 'c' else self.opnd(fn, o, env, s) for o in ins[4]]
                    for w, v, more in [(w, v, k) for w, v in ((True, xs[1]), (False, xs[2])) for k in self.alts(xs[0], w)]:
                        s2 = s.copy()
                        self.assert_(xs[0], w, s2.facts)
                        for q, t in more:
                            self.assert_(q, t, s2.facts)
                        if s2.facts.close():
                            e2 = dict(env)
                            e2[ins[1]] = v
                            work.append((b, prev, e2, s2, seen, i))
                    stopped = True
                    break
                self.step(fn, ins, env, s)
            if stopped:
                continue
            t = blk[-1]
            if t[0] == 'br' and len(t) > 5:
                c = self.opnd(fn, t[4], env, s)
                nxt = [(tb, c, w, k) for tb, w in ((t[5], True), (t[6], False)) for k in self.alts(c, w)]
            elif t[0] == 'br':
                work.append((t[4], b, env, s, seen, 0))
                continue
            elif t[0] == 'switch':
                c = self.opnd(fn, t[4], env, s)
                xs = [x for x, _ in c[1]]
                if 1 <= len(xs) <= 3 and all(self.boolean(A(x)) for x in xs):
                    nxt = []                    # a combination of truth values
                    for m in range(1 << len(xs)):
                        v = c[0] + sum(k for i, (_, k) in enumerate(c[1]) if m >> i & 1)
                        tb = next((tb for cv, tb in t[6] if cv == v), t[5])
                        nxt.append((tb, C(v), v, tuple((A(x), bool(m >> i & 1)) for i, x in enumerate(xs))))
                else:
                    nxt = [(tb, c, cv, ()) for cv, tb in t[6]] + [(t[5], c, None, ())]
            else:
                self.end('stop', s, None, fn, t)
                continue
            for tb, c, w, more in nxt:
                s2 = s.copy()
                for q, r in more:
                    self.assert_(q, r, s2.facts)
                if t[0] == 'switch':
                    if w is None:
                        for cv, _ in t[6]:
                            s2.facts.add_ne(off(c, -cv))
                    else:
                        s2.facts.add_eq(off(c, -w))
                else:
                    self.assert_(c, w, s2.facts)
                if s2.facts.close():
                    work.append((tb, b, dict(env), s2, seen, 0))

    def shared(self, a, args):
        """may a call change the word at address a?"""
        for x, _ in a[1]:
            if x[0] == 'alloca':
                return any(x in (y for y, _ in v[1]) for v in args if v is not None)
        return True

    def loop_stores(self, fn, h, env, s):
        """addresses (known at the loop's entry) stored in the loop, including through the functions it calls"""
        from . import flow
        body = natural(fn, h)
        res = []
        for b in body:
            for ins in fn.blocks[b]:
                if ins[0] == 'store':
                    res.append(self.opnd(fn, ins[5], dict(env), s))
                elif ins[0] == 'call':
                    for o in ins[5]:
                        if isinstance(o, int) or isinstance(o, list):
                            v = self.opnd(fn, o, dict(env), s)
                            if v in s.mem:
                                res.append(v)
        return list(dict.fromkeys(res))

    def opaque(self, c, av, ins, s, fn, env=None):
        if c in self.pure:
            return A(('call', c) + tuple(av))
        if c:
            if c.startswith('llvm.cttz'):
                return C((av[0][0] & -av[0][0]).bit_length() - 1) if is_const(av[0]) and av[0][0] else A(('ctz', av[0]))
            if c.startswith('llvm.ctlz'):
                return C(64 - (av[0][0] & (1 << 64) - 1).bit_length()) if is_const(av[0]) else A(('clz', av[0]))
            if c.startswith('llvm.ctpop'):
                return C(bin(av[0][0] & (1 << 64) - 1).count('1')) if is_const(av[0]) else A(('ctpop', av[0]))
            if c.startswith('llvm.smul.with.overflow'):
                return A(('pair', mul(av[0], av[1]), ('smulo',) + tuple(sorted(av[:2], key=repr))))
            if c.startswith('llvm.sadd.with.overflow'):
                return A(('pair', add(av[0], av[1]), ('saddo', av[0], av[1])))
        k = sum(1 for x in s.calls if x[0] == c) if c not in self.keep else 'e%d' % s.epoch
        return A(('ret', c or show(self.opnd(fn, ins[4], (env or {}) if self.versions is not None else {}, s)), k) + tuple(av))

    def opnd(self, fn, o, env, s):
        if isinstance(o, int):
            v = env.get(o)
            return v if v is not None else A(('ssa', fn.name, o))
        k = o[0]
        if k == 'c':
            return C(o[1])
        if k == 'g':
            if self.prog.fn(o[1], fn.unit) is not None or o[1] in self.prog.named():
                return A(('fn', o[1]))
            if self.versions is not None and o[1].startswith('.str'):
                g = fn.unit.globals.get(o[1])
                if g and g.get('const') and len(g.get('init') or ()) == 1 and g['init'][0][1] == 's':
                    return off(A(('str', g['init'][0][2])), o[2] if len(o) > 2 else 0)
                if g and g.get('const') and g.get('size') == 1 and not g.get('init'):
                    return off(A(('str', '\0')), o[2] if len(o) > 2 else 0)
            n = o[1][4:] if o[1].startswith('ref_') else o[1].replace('__const.ref_', '__const.', 1)
            return off(A(('g', n)), o[2] if len(o) > 2 else 0)
        if k == 'f':
            return A(('f', o[1]))
        if k == 'null':
            return C(0)
        if k == 'ce':
            vs = [self.opnd(fn, x, env, s) for x in o[2]]
            if len(vs) == 1:
                return vs[0]
            return A(('ce', o[1]) + tuple(vs))
        if k in ('u', 'undef', 'poison'):
            return A(('undef',))
        return A(('?', repr(o)))

    def load(self, a, s, ty):
        v = s.mem.get(a)
        if v is None:
            v = A(('ld', a))
            if self.versions is not None and s.epoch and not self.versions(a) and (a not in s.mem):
                v = A(('ld', a, s.epoch))
        return v

    def chain(self, fn, ch, env, s):
        if ch[0] == 'load':
            return self.load(self.chain(fn, ch[1], env, s), s, ch[2])
        if ch[0] == 'off':
            return off(self.chain(fn, ch[1], env, s), ch[2])
        return self.opnd(fn, ch[1], env, s)

    def step(self, fn, ins, env, s):
        op, r = ins[0], ins[1]
        if op == 'load':
            env[r] = self.load(self.opnd(fn, ins[4], env, s), s, ins[2])
            return
        if op == 'store':
            a, v = self.opnd(fn, ins[5], env, s), self.opnd(fn, ins[4], env, s)
            s.mem[a] = v
            s.stores.append((a, v, ins, fn))
            return
        if op == 'getelementptr':
            v = off(self.opnd(fn, ins[4], env, s), ins[5])
            for x, k in ins[6]:
                v = add(v, scale(self.opnd(fn, x, env, s), k))
            env[r] = v
            return
        if r is None or r < 0:
            return
        if op == 'alloca':
            s.n += 1
            s.na += 1
            env[r] = A(('alloca', fn.name, r, s.n) if self.versions is None else ('alloca', s.na))
            return
        if op in ('icmp', 'fcmp'):
            a, b = self.opnd(fn, ins[5], env, s), self.opnd(fn, ins[6], env, s)
            if op == 'fcmp':
                c, sense = fcmp(ins[4], a, b)
                env[r] = A(c) if sense else sub(C(1), A(c))
            else:
                env[r] = self.icmp(ins[4], a, b, s)
            return
        if op == 'extractvalue':
            v = self.opnd(fn, ins[4], env, s)
            p = single(v)
            if p is not None and p[0] == 'pair':
                env[r] = p[1] if ins[5] == [0] else A(p[2])
            else:
                env[r] = A(('xv', v, tuple(ins[5])))
            return
        xs = [self.opnd(fn, o, env, s) for o in ins[4]] if isinstance(ins[4], list) else []
        ty = ins[2]
        n = BITS.get(ty, 64)
        if op == 'add':
            v = add(xs[0], xs[1])
        elif op == 'sub':
            v = sub(xs[0], xs[1])
        elif op == 'mul':
            v = mul(xs[0], xs[1])
        elif op == 'sdiv':
            v = sdiv(xs[0], xs[1])
        elif op == 'srem':
            v = srem(xs[0], xs[1])
        elif op in ('shl', 'ashr', 'lshr') and is_const(xs[1]) and not 0 <= xs[1][0] < n:
            v = A(('undef',))
        elif op == 'shl' and is_const(xs[1]):
            v = scale(xs[0], 1 << xs[1][0])
        elif op == 'ashr' and is_const(xs[1]):
            v = ashr(xs[0], xs[1][0])
        elif op == 'ashr' and is_const(xs[0]):
            v = A(('ashrv', xs[0], xs[1]))
        elif op == 'lshr' and is_const(xs[1]) and s.facts.entails(xs[0]):
            v = ashr(xs[0], xs[1][0])
        elif op in ('and', 'or', 'xor'):
            if n == 1:
                v = self.logic(op, xs, s)
            else:
                v = bitop(op, xs[0], xs[1])
        elif op in ('zext',):
            v = xs[0]
            if n > 1 and not is_const(v):
                pass
        elif op in ('sext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            v = xs[0] if not (op == 'bitcast' and ty == 'd') else A(('bits', xs[0]))
        elif op == 'trunc':
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1)
            if is_const(xs[0]):
                v = C((xs[0][0] - lo) % (1 << n) + lo) if n > 1 else C(xs[0][0] & 1)
            elif s.facts.entails(off(xs[0], -lo)) and s.facts.entails(off(scale(xs[0], -1), hi)):
                v = xs[0]
            else:
                v = A(('trunc', ty, xs[0]))
        elif op == 'sitofp':
            v = A(('sitofp', ty, xs[0]))
        elif op == 'fpext' or op == 'fptrunc':
            v = A((op, ty, xs[0]))
        elif op == 'fptosi':
            v = A(('fptosi', ty, xs[0]))
        elif op == 'fneg':
            v = A(('fneg', xs[0]))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            v = fop(op, *xs)
        else:
            v = A((op, ty) + tuple(xs))
        if op in ('add', 'sub', 'mul', 'shl') and not is_const(v) and n >= 32:
            lo, hi = -(1 << n - 1), (1 << n - 1) - 1
            if not (s.facts.entails(off(v, -lo)) and s.facts.entails(off(scale(v, -1), hi))):
                self.wrap.append((fn, ins, v))
        elif is_const(v) and n in (32, 64) and op in ('add', 'sub', 'mul', 'shl'):
            lo = -(1 << n - 1)
            if not lo <= v[0] < -lo:
                self.wrap.append((fn, ins, v))
                v = C((v[0] - lo) % (1 << n) + lo)
        env[r] = v

    def icmp(self, pred, a, b, s):
        if pred in ('eq', 'ne'):
            d = sub(a, b)
            # a truth value compared with 0 or 1
            if is_const(b) or is_const(a):
                x, k = (a, b[0]) if is_const(b) else (b, a[0])
                if self.boolean(x) and k in (0, 1):
                    return x if (k == 1) == (pred == 'eq') else sub(C(1), x)
            if is_const(d):
                return C(int((d[0] == 0) == (pred == 'eq')))
            if d[1][0][1] < 0:
                d = scale(d, -1)
            g = content(d)
            if d[0] % g:
                return C(int(pred == 'ne'))
            d = (d[0] // g, tuple((x, c // g) for x, c in d[1]))
            return A(('icmp', 'eq', d)) if pred == 'eq' else sub(C(1), A(('icmp', 'eq', d)))
        if pred in ('ugt', 'uge', 'ult', 'ule'):
            if s.facts.entails(a) and s.facts.entails(b):
                pred = 's' + pred[1:]
            elif s.facts.entails(b) and pred in ('ugt', 'ule'):
                # a is outside 0..b
                neg, above = self.icmp('slt', a, C(0), s), self.icmp('sgt', a, b, s)
                o = self.logic('or', [neg, above], s)
                return o if pred == 'ugt' else sub(C(1), o)
            elif s.facts.entails(b) and pred in ('uge', 'ult'):
                neg, above = self.icmp('slt', a, C(0), s), self.icmp('sge', a, b, s)
                o = self.logic('or', [neg, above], s)
                return o if pred == 'uge' else sub(C(1), o)
            elif s.facts.entails(a) and pred in ('ult', 'uge', 'ule', 'ugt'):
                return self.icmp({'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'ugt': 'ult'}[pred], b, a, s)
            else:
                if pred in ('ugt', 'ule'):
                    a, b = b, a
                x = A(('icmp', 'ult', a, b))
                return x if pred in ('ult', 'ugt') else sub(C(1), x)
        # e >= 0
        e = {'slt': lambda: off(sub(b, a), -1), 'sle': lambda: sub(b, a), 'sgt': lambda: off(sub(a, b), -1), 'sge': lambda: sub(a, b)}[pred]()
        if is_const(e):
            return C(int(e[0] >= 0))
        g = content(e)
        e = (e[0] // g, tuple((x, c // g) for x, c in e[1]))
        n = off(scale(e, -1), -1)
        if repr(n) < repr(e):
            return sub(C(1), A(('icmp', 'ge', n)))
        return A(('icmp', 'ge', e))

    def boolean(self, x):
        a = single(x)
        if a is None and x[0] == 1 and len(x[1]) == 1 and x[1][0][1] == -1:
            a = x[1][0][0]
        return a is not None and a[0] in ('icmp', 'fcmp', 'smulo', 'saddo', 'andb', 'orb', 'xorb', 'test')

    def logic(self, op, xs, s):
        a, b = (C(x[0] & 1) if is_const(x) else x for x in xs)
        if is_const(a):
            a, b = b, a
        if is_const(b):
            if op == 'xor':
                return a if b[0] & 1 == 0 else sub(C(1), a)
            if op == 'and':
                return a if b[0] & 1 else C(0)
            return C(1) if b[0] & 1 else a
        return A((op + 'b', a, b))

    def alts(self, c, truth):
        """condition c being truth, as alternatives: lists of (condition, truth) that leave no disjunction"""
        if c[0] == 1 and len(c[1]) == 1 and c[1][0][1] == -1:
            return self.alts(A(c[1][0][0]), not truth)
        a = single(c)
        if a is None:
            return [()]
        if a[0] == 'andb' and not truth or a[0] == 'orb' and truth:
            res = []
            for p in (True, False):
                for q in (True, False):
                    if (p and q if a[0] == 'andb' else p or q) == truth:
                        res += [((a[1], p), (a[2], q)) + k + l for k in self.alts(a[1], p) for l in self.alts(a[2], q)]
            return res
        if a[0] in ('andb', 'orb'):
            return [k + l for k in self.alts(a[1], truth) for l in self.alts(a[2], truth)]
        if a[0] == 'xorb':
            return [((a[1], p), (a[2], p != truth)) + k + l for p in (True, False) for k in self.alts(a[1], p) for l in self.alts(a[2], p != truth)]
        if a[0] == 'icmp' and a[1] in ('eq', 'ge') and 1 < len(a[2][1]) <= 3 and all(self.boolean(A(x)) for x, _ in a[2][1]):
            # a relation of truth values
            xs = [x for x, _ in a[2][1]]
            res = []
            for m in range(1 << len(xs)):
                v = a[2][0] + sum(k for i, (_, k) in enumerate(a[2][1]) if m >> i & 1)
                if ((v == 0) if a[1] == 'eq' else (v >= 0)) == truth:
                    res.append(tuple((A(x), bool(m >> i & 1)) for i, x in enumerate(xs)))
            return res or [()]
        return [()]

    def assert_(self, c, truth, f):
        self.assert1(c, truth, f)

    def assert1(self, c, truth, f):
        if is_const(c):
            if bool(c[0]) != truth:
                f.bad = True
            return
        if c[0] == 1 and len(c[1]) == 1 and c[1][0][1] == -1:
            return self.assert1(A(c[1][0][0]), not truth, f)
        a = single(c)
        if a is None:
            (f.add_ne if truth else f.add_eq)(c)
            return
        if a[0] == 'icmp' and a[1] == 'ge':
            f.add_ge(a[2] if truth else off(scale(a[2], -1), -1))
            return
        if a[0] == 'icmp' and a[1] == 'eq':
            (f.add_eq if truth else f.add_ne)(a[2])
            return
        if a[0] == 'andb' and truth or a[0] == 'orb' and not truth:
            self.assert1(a[1], truth, f)
            self.assert1(a[2], truth, f)
            return
        if a[0] in ('icmp', 'fcmp', 'smulo', 'saddo', 'andb', 'orb', 'test'):
            if a in f.truth and f.truth[a] != truth:
                f.bad = True
            if a[0] == 'fcmp' and self.fbad(a, truth, f):
                f.bad = True
            f.truth[a] = truth
            return
        (f.add_ne if truth else f.add_eq)(c)

    def fbad(self, a, truth, f):
        """comparisons of the same two numbers that cannot hold together"""
        for i in (2, 3):
            if isconstf(a[5 - i]) and not isconstf(a[i]) and unsat(a[i], a, truth, f):
                return True
        if not truth:
            # not (a <= b) with a < b or a = b known
            if a[1] == 'ole' and (f.truth.get(('fcmp', 'olt', a[2], a[3])) or f.truth.get(('fcmp', 'oeq') + tuple(sorted(a[2:], key=repr)))):
                return True
            x, y = a[2], a[3]
            if nonan(x) and nonan(y):
                k = [('fcmp', 'olt', x, y), ('fcmp', 'olt', y, x), ('fcmp', 'oeq') + tuple(sorted((x, y), key=repr))]
                return all(q == a or f.truth.get(q) is False for q in k)
            return False
        x, y = a[2], a[3]
        if a[1] == 'olt':
            return bool(f.truth.get(('fcmp', 'olt', y, x)) or f.truth.get(('fcmp', 'ole', y, x)) or
                        f.truth.get(('fcmp', 'oeq') + tuple(sorted((x, y), key=repr))) or f.truth.get(('fcmp', 'ole', x, y)) is False)
        if a[1] == 'ole':
            return bool(f.truth.get(('fcmp', 'olt', y, x)))
        if a[1] == 'oeq':
            return bool(f.truth.get(('fcmp', 'olt', x, y)) or f.truth.get(('fcmp', 'olt', y, x)) or
                        f.truth.get(('fcmp', 'ole', x, y)) is False or f.truth.get(('fcmp', 'ole', y, x)) is False)
        return False


def ASSERT(c, truth, f):
    Machine.assert1(_m, c, truth, f)


_m = Machine(None)


_dl = {}


def deref_loop(fn, h):
    """the phi that follows references when the loop of head h only dereferences a word, else None"""
    k = (id(fn), h)
    if k not in _dl:
        _dl[k] = _deref_loop(fn, h)
    return _dl[k]


def _deref_loop(fn, h):
    defs, loads = {}, []
    for b in natural(fn, h):
        for ins in fn.blocks[b]:
            if ins[0] not in ('phi', 'and', 'icmp', 'br', 'inttoptr', 'load', 'switch', 'add', 'sub', 'lshr', 'ashr', 'shl'):
                return None
            if isinstance(ins[1], int) and ins[1] >= 0:
                defs[ins[1]] = ins
            if ins[0] == 'load':
                loads.append(ins)
    if len(loads) != 1:
        return None
    a = loads[0][4]
    while isinstance(a, int) and a in defs and defs[a][0] in ('inttoptr', 'and'):
        a = defs[a][4][0]
    ph = defs.get(a)
    if ph is None or ph[0] != 'phi' or ph not in fn.blocks[h]:
        return None
    body = natural(fn, h)
    if all(o == loads[0][1] for pb, o in ph[4] if pb in body):
        return a
    return None


_HR = {}


def head_reads(fn, h):
    """phis of the head of a loop that are the content of memory there, each time the head is reached: {phi: how to read it}"""
    key = id(fn), h
    if key not in _HR:
        body = natural(fn, h)
        where = {i[1]: b for b, blk in enumerate(fn.blocks) for i in blk if isinstance(i[1], int) and i[1] >= 0}
        memo = {}
        for ins in fn.blocks[h]:
            if ins[0] != 'phi':
                break
            cs = [_chain(fn, o, pb, where, body) for pb, o in ins[4]]
            if cs[0] is not None and len(cs) > 1 and all(c == cs[0] for c in cs) and 'load' in repr(cs[0]):
                memo[ins[1]] = cs[0]
        _HR[key] = memo, fn
    return _HR[key][0]


def _chain(fn, o, pb, where, body):
    if not isinstance(o, int):
        return ('opnd', o) if o[0] == 'g' else None
    if o not in where:
        return ('opnd', o)
    b = where[o]
    at = next(i for i, x in enumerate(fn.blocks[b]) if x[1] == o)
    ins = fn.blocks[b][at]
    if ins[0] == 'getelementptr' and not ins[6]:
        c = _chain(fn, ins[4], pb, where, body)
        return c and ('off', c, ins[5])
    if ins[0] == 'load' and b == pb and not any(x[0] in ('store', 'call') for x in fn.blocks[b][at + 1:]):
        c = _chain(fn, ins[4], pb, where, body)
        return c and ('load', c, ins[2])
    return ('opnd', o) if b not in body and b != pb else None


def deref_hook(m, fn, b, s, init, vals, minit, mvals):
    """a loop that dereferences w leaves the word deref(w)"""
    k = deref_loop(fn, b)
    if k is not None and k in init:
        w = init[k]
        a = single(w)
        if a and a[0] == 'ld' and (single(a[1]) or (0,))[0] == 'deref':
            w = a[1]                              # an unbound variable refers to itself
            a = single(w)
        vals[k] = w if a and a[0] == 'deref' else A(('deref', w))
        for j in vals:
            if j != k and init.get(j) == init[k]:
                vals[j] = vals[k]


def varies(a, nth):
    """does the value depend on the iteration of the nth or a later loop?"""
    if isinstance(a, tuple):
        if len(a) > 1 and a[0] in ('k', 'loop', 'loopm') and isinstance(a[1], int) and a[1] >= nth:
            return True
        if a and a[0] in ('ssa', 'ret', 'alloca'):
            return a[0] != 'alloca'
        return any(varies(x, nth) for x in a)
    return False


def natural(fn, h):
    """blocks of the loop of head h"""
    preds = {}
    for b in range(len(fn.blocks)):
        for x in fn.succ[b]:
            preds.setdefault(x, []).append(b)
    body, w = {h}, list(fn.heads.get(h, ()))
    while w:
        b = w.pop()
        if b not in body:
            body.add(b)
            w.extend(preds.get(b, []))
    return body


def show(v):
    if v is None:
        return 'nothing'
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], tuple):
        ts = []
        for x, c in v[1]:
            t = showa(x)
            ts.append(t if c == 1 else '-' + t if c == -1 else '%d*%s' % (c, t))
        if v[0] or not ts:
            ts.append(str(v[0]))
        r = ' + '.join(ts).replace('+ -', '- ')
        return r
    return str(v)


def showa(a):
    if not isinstance(a, tuple):
        return str(a)
    k = a[0]
    if k in ('arg', 'v'):
        return str(a[1])
    if k == 'f':
        return a[1]
    if k == 'mul':
        return '*'.join(showa(x) for x in a[1:])
    if k == 'call':
        return '%s(%s)' % (a[1], ', '.join(show(x) for x in a[2:]))
    if k in ('sitofp', 'fpext', 'fptosi', 'trunc'):
        return '%s(%s)' % (k, show(a[2]))
    if k == 'icmp' and len(a) == 3:
        return '[%s %s 0]' % (show(a[2]), '>=' if a[1] == 'ge' else '=')
    if k == 'fcmp':
        return '[%s %s %s]' % (show(a[2]), {'oeq': '=', 'olt': '<', 'ole': '<='}.get(a[1], a[1]), show(a[3]))
    if k == 'ld':
        return '*(%s)' % show(a[1])
    if k == 'g':
        return a[1]
    return '%s(%s)' % (k, ', '.join(show(x) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) else showa(x) for x in a[1:]))

"""C09: every evaluable functor computes its documented value, or raises the documented error."""
import math
import os
import re

from gpl import ir, plread, plref, prep, refcheck, sem
from gpl.sem import A, C, Facts, Limit, Machine, add, ashr, bitop, fcmp, fconst, fop, mul, off, scale, sdiv, show, srem, sub

RULE = ('For every evaluable functor (as registered for the interpreter, as inlined by the compiler, and its integer-only version for --fast-math) '
        'the paths of its C function are followed over symbolic operands of every type combination, with the linear facts of the path; '
        'in every case of the specification (documented value / type error / overflow / zero divisor / undefined) that a path is compatible with, '
        'the path returns exactly the specified value, with the specified type, or raises the specified error with the specified culprit. '
        'Integer results are in the range of Prolog integers; float results have been classified as neither NaN nor infinite. '
        'The comparison predicates are decided in the same way.')

UNIT = 'arith_inl_c'
LO, HI = -(1 << 60), (1 << 60) - 1


class V:
    """a spec outcome: value of type I / F, or error"""
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __str__(self):
        if self.kind == 'err':
            return '%s_error(%s%s)' % (self.a[0], self.a[1], ', ' + self.a[2][0] if self.a[2:] and self.a[2] else '')
        return {'I': 'the integer ', 'F': 'the float ', 'W': 'its operand ', 'T': ''}[self.kind] + (show(self.a[0]) if not isinstance(self.a[0], str) else self.a[0])


I = lambda e: V('I', e)
F = lambda *e: V('F', *e)
OVER = V('err', 'evaluation', 'int_overflow')
ZERO = V('err', 'evaluation', 'zero_divisor')
UNDEF = V('err', 'evaluation', 'undefined')
DOM = lambda w: V('err', 'domain', 'not_less_than_zero', w)


# conditions on facts: functions Facts -> None that add them
def ge(e):
    return lambda f: f.add_ge(e)


def lt0(e):
    return lambda f: f.add_ge(off(scale(e, -1), -1))


def eq(e):
    return lambda f: f.add_eq(e)


def ne(e):
    return lambda f: f.add_ne(e)


def cond(pred, a, b, truth=True):
    def g(f):
        c, s = fcmp(pred, a, b)
        sem.ASSERT(A(c), s == truth, f)
    return g


def inrange(e, val):
    """val when e is a Prolog integer, int_overflow otherwise"""
    return [([ge(off(scale(e, -1), HI)), ge(off(e, -LO))], val), ([lt0(off(e, -LO))], OVER), ([ge(off(e, -HI - 1))], OVER)]


def cases(common, rest):
    return [(common + c, o) for c, o in rest]


# ------------------------------------------------------------------ integer functors
def w_(i):
    return ('operand %d' % (i + 1), i)


def i_add(x, y):
    return inrange(add(x, y), I(add(x, y)))


def i_sub(x, y):
    return inrange(sub(x, y), I(sub(x, y)))


def i_mul(x, y):
    return inrange(mul(x, y), I(mul(x, y)))


def i_neg(x):
    return inrange(scale(x, -1), I(scale(x, -1)))


def i_inc(x):
    return inrange(off(x, 1), I(off(x, 1)))


def i_dec(x):
    return inrange(off(x, -1), I(off(x, -1)))


def over_div(x, y):
    return [([eq(y)], ZERO), ([eq(off(x, -LO)), eq(off(y, 1))], OVER)]


def okdiv(x, y):
    """not the overflow case, y != 0"""
    return [[lt0(y), lt0(off(y, 1))], [eq(off(y, 1)), ge(off(x, -LO - 1))], [ge(off(y, -1))]]


def i_div(x, y):
    return over_div(x, y) + [(c, I(sdiv(x, y))) for c in okdiv(x, y)]


def i_div2(x, y):
    r, q = srem(x, y), sdiv(x, y)
    out = over_div(x, y)
    for c in okdiv(x, y):
        out += cases(c, [([eq(r)], I(q)), ([ge(off(r, -1)), ge(off(y, -1))], I(q)), ([lt0(r), lt0(y)], I(q)),
                         ([ge(off(r, -1)), lt0(y)], I(off(q, -1))), ([lt0(r), ge(off(y, -1))], I(off(q, -1)))])
    return out


def i_rem(x, y):
    return [([eq(y)], ZERO), ([ne(y)], I(srem(x, y)))]


def i_mod(x, y):
    r = srem(x, y)
    return [([eq(y)], ZERO)] + cases([ne(y)], [
        ([eq(r)], I(r)), ([ge(off(r, -1)), ge(off(y, -1))], I(r)), ([lt0(r), lt0(y)], I(r)),
        ([ge(off(r, -1)), lt0(y)], I(add(r, y))), ([lt0(r), ge(off(y, -1))], I(add(r, y)))])


def bit(op):
    return lambda x, y: [([], I(bitop(op, x, y)))]


def i_not(x):
    return [([], I(off(scale(x, -1), -1)))]


def shift_left(x, n):
    """x * 2^n, n constant >= 0 (None: more than the width)"""
    if n is None:
        return [([eq(x)], I(C(0))), ([ne(x)], OVER)]
    return inrange(scale(x, 1 << n), I(scale(x, 1 << n)))


def shift_right(x, n):
    if n is None:
        return [([ge(x)], I(C(0))), ([lt0(x)], I(C(-1)))]
    return [([], I(ashr(x, n)))]


def i_shl(x, y, n):
    return shift_left(x, n[1]) if n[0] >= 0 else shift_right(x, n[1])


def i_shr(x, y, n):
    return shift_right(x, n[1]) if n[0] >= 0 else shift_left(x, n[1])


def i_lsb(x):
    return [([lt0(x)], DOM(w_(0))), ([eq(x)], I(C(-1))), ([ge(off(x, -1))], I(A(('ctz', x))))]


def i_msb(x):
    return [([lt0(x)], DOM(w_(0))), ([eq(x)], I(C(-1))), ([ge(off(x, -1))], I(off(scale(A(('clz', x)), -1), 63)))]


def i_pop(x):
    return [([lt0(x)], DOM(w_(0))), ([ge(x)], I(A(('ctpop', x))))]


def i_abs(x):
    return [([eq(off(x, -LO))], OVER), ([lt0(x), ge(off(x, -LO - 1))], I(scale(x, -1))), ([ge(x)], I(x))]


def i_sign(x):
    return [([lt0(x)], I(C(-1))), ([eq(x)], I(C(0))), ([ge(off(x, -1))], I(C(1)))]


def i_min(x, y):
    return [([ge(sub(y, x))], I(x)), ([ge(sub(x, y))], I(y))]


def i_max(x, y):
    return [([ge(sub(y, x))], I(y)), ([ge(sub(x, y))], I(x))]


def i_id(x):
    return [([], I(x))]


def i_gcd(x, y):
    big = lambda e: eq(off(e, -LO))
    small = lambda e: ge(off(e, -LO - 1))
    return [([big(x), eq(y)], OVER), ([eq(x), big(y)], OVER), ([big(x), big(y)], OVER),
            ([small(x), small(y)], V('gcd')), ([big(x), small(y), ne(y)], V('gcd')), ([small(x), ne(x), big(y)], V('gcd'))]


def i_pow(x, y):
    one, two = C(1), C(-1)
    odd = bitop('and', y, C(1))
    return [([eq(off(x, -1))], I(C(1))),
            ([eq(off(x, 1)), eq(odd)], I(C(1))), ([eq(off(x, 1)), eq(off(odd, -1))], I(C(-1))),
            ([eq(x), eq(y)], I(C(1))), ([eq(x), ge(off(y, -1))], I(C(0))), ([eq(x), lt0(y)], UNDEF),
            ([ge(off(x, -2)), lt0(y)], V('err', 'type', 'float', w_(0))), ([lt0(off(x, 1)), lt0(y)], V('err', 'type', 'float', w_(0))),
            ([ge(off(x, -2)), ge(y)], V('pow')), ([lt0(off(x, 1)), ge(y)], V('pow'))]


# ------------------------------------------------------------------ float functors: of doubles a, b
def fn1(name):
    def g(a):
        return [([], F(A(('call', name, a))))]
    return g


CALL = lambda n, *a: A(('call', n) + a)
ONE, NIL_, MONE = fconst('1'), fconst('0'), fconst('-1')


def f2(op):
    return lambda a, b: [([], F(fop(op, a, b)))]


def f_div(a, b):
    return [([cond('oeq', b, NIL_)], ZERO), ([cond('oeq', b, NIL_, False)], F(fop('fdiv', a, b)))]


def f_sign(a):
    return [([cond('olt', a, NIL_)], F(MONE)), ([cond('olt', NIL_, a)], F(ONE)),
            ([cond('olt', a, NIL_, False), cond('olt', NIL_, a, False)], F(NIL_, a))]


def f_pow(a, b):
    p = CALL('pow', a, b)
    return [([cond('oeq', a, NIL_), cond('olt', b, NIL_)], UNDEF),
            ([cond('oeq', a, NIL_), cond('olt', b, NIL_, False)], F(p)),
            ([cond('oeq', a, NIL_, False), cond('oeq', a, ONE)], F(a, ONE, p)),
            ([cond('oeq', a, NIL_, False), cond('oeq', a, ONE, False)], F(p))]


def f_atan2(a, b):
    p = CALL('atan2', a, b)
    return [([cond('oeq', a, NIL_), cond('oeq', b, NIL_)], UNDEF), ([cond('oeq', a, NIL_, False)], F(p)), ([cond('oeq', b, NIL_, False)], F(p))]


def f_log(name):
    return lambda a: [([cond('ole', a, NIL_)], UNDEF), ([cond('ole', a, NIL_, False)], F(CALL(name, a)))]


def f_logr(b, a):
    return [([cond('ole', a, NIL_)], UNDEF), ([cond('ole', b, NIL_)], UNDEF),
            ([cond('ole', a, NIL_, False), cond('ole', b, NIL_, False)], F(fop('fdiv', CALL('log', a), CALL('log', b))))]


def f_atanh(a):
    return [([cond('ole', a, MONE)], UNDEF), ([cond('oge', a, ONE)], UNDEF),
            ([cond('ole', a, MONE, False), cond('oge', a, ONE, False)], F(CALL('atanh', a)))]


def f_id(a):
    return [([], F(a))]


def f_intpart(a):
    return [([cond('olt', NIL_, a)], F(CALL('floor', a), CALL('trunc', a))), ([cond('olt', NIL_, a, False)], F(CALL('ceil', a), CALL('trunc', a)))]


def f_fract(a):
    s = lambda e: fop('fsub', a, e)
    return [([cond('olt', NIL_, a)], F(s(CALL('floor', a)), s(CALL('trunc', a)))),
            ([cond('olt', NIL_, a, False)], F(s(CALL('ceil', a)), s(CALL('trunc', a))))]


def rounding(mk):
    def g(a):
        d = mk(a)
        n = A(('fptosi', 'i64', d))
        same = lambda t: cond('oeq', A(('sitofp', 'd', n)), d, t)
        return [([same(False)], OVER), ([same(True), lt0(off(n, -LO))], OVER), ([same(True), ge(off(n, -HI - 1))], OVER),
                ([same(True), ge(off(n, -LO)), ge(off(scale(n, -1), HI))], I(n))]
    return g


def f_min(a, b):
    return 'min'


# name/arity -> (signature, integer spec, float spec)
SPEC = {
    ('pi', 0): ('=F', None, math.pi), ('e', 0): ('=F', None, math.e), ('epsilon', 0): ('=F', None, 2.0 ** -52),
    ('+', 1): ('IF=IF', i_id, None), ('-', 1): ('IF=IF', i_neg, lambda a: [([], F(A(('fneg', a))))]),
    ('inc', 1): ('IF=IF', i_inc, lambda a: [([], F(fop('fadd', a, ONE)))]),
    ('dec', 1): ('IF=IF', i_dec, lambda a: [([], F(fop('fadd', a, MONE)))]),
    ('+', 2): ('IF,IF=IF', i_add, f2('fadd')), ('-', 2): ('IF,IF=IF', i_sub, f2('fsub')), ('*', 2): ('IF,IF=IF', i_mul, f2('fmul')),
    ('/', 2): ('IF,IF=F', None, f_div),
    ('//', 2): ('I,I=I', i_div, None), ('div', 2): ('I,I=I', i_div2, None), ('rem', 2): ('I,I=I', i_rem, None), ('mod', 2): ('I,I=I', i_mod, None),
    ('/\\', 2): ('I,I=I', bit('and'), None), ('\\/', 2): ('I,I=I', bit('or'), None), ('xor', 2): ('I,I=I', bit('xor'), None),
    ('\\', 1): ('I=I', i_not, None), ('<<', 2): ('I,I=I', i_shl, None), ('>>', 2): ('I,I=I', i_shr, None),
    ('lsb', 1): ('I=I', i_lsb, None), ('msb', 1): ('I=I', i_msb, None), ('popcount', 1): ('I=I', i_pop, None),
    ('abs', 1): ('IF=IF', i_abs, fn1('fabs')), ('sign', 1): ('IF=IF', i_sign, f_sign),
    ('min', 2): ('IF,IF=?', i_min, 'min'), ('max', 2): ('IF,IF=?', i_max, 'max'),
    ('gcd', 2): ('I,I=I', i_gcd, None), ('^', 2): ('IF,IF=IF', i_pow, f_pow), ('**', 2): ('IF,IF=F', None, f_pow),
    ('atan2', 2): ('IF,IF=F', None, f_atan2), ('atanh', 1): ('IF=F', None, f_atanh),
    ('log', 1): ('IF=F', None, f_log('log')), ('log10', 1): ('IF=F', None, f_log('log10')), ('log', 2): ('IF,IF=F', None, f_logr),
    ('float', 1): ('IF=F', None, f_id),
    ('ceiling', 1): ('F=I', None, rounding(lambda a: CALL('ceil', a))), ('floor', 1): ('F=I', None, rounding(lambda a: CALL('floor', a))),
    ('round', 1): ('F=I', None, rounding(lambda a: CALL('floor', fop('fadd', a, fconst('0.5'))))),
    ('truncate', 1): ('F=I', None, rounding(lambda a: CALL('trunc', a))),
    ('float_fractional_part', 1): ('F=F', None, f_fract), ('float_integer_part', 1): ('F=F', None, f_intpart),
}
for _n in 'sqrt tan atan cos acos sin asin tanh cosh acosh sinh asinh exp'.split():
    SPEC[(_n, 1)] = ('IF=F', None, fn1(_n))
CMP = {'=:=': ('eq', 'oeq'), '=\\=': ('ne', 'une'), '<': ('lt', 'olt'), '=<': ('le', 'ole'), '>': ('gt', 'ogt'), '>=': ('ge', 'oge')}


# ------------------------------------------------------------------ comparing a path with the specification
class World:
    def __init__(self, prog, tags):
        self.prog, self.tags = prog, tags
        self.unit = None

    def int_arg(self, n, lo=LO, hi=HI, const=None):
        if const is not None:
            return C(const), off(scale(C(const), 8), self.tags['INT']), []
        x = A(('v', n))
        return x, off(scale(x, 8), self.tags['INT']), [ge(off(x, -lo)), ge(off(scale(x, -1), hi))]

    def flt_arg(self, n):
        p = A(('v', 'p' + n))
        w = off(scale(p, 8), self.tags['FLT'])
        return A(('call', 'Pl_Obtain_Float', scale(p, 8))), w, [ge(off(p, -1))]


ERRS = {'Pl_Err_Evaluation': 'evaluation', 'Pl_Err_Type': 'type', 'Pl_Err_Domain': 'domain', 'Pl_Err_Instantiation': 'instantiation',
        'Pl_Err_Representation': 'representation', 'Pl_Err_Resource': 'resource'}
ATOM = re.compile(r'^pl_(?:evaluation|type|domain|representation)_(\w+)$')


def outcome(o, tags):
    """what a path does: ('err', class, atom, culprit word) / ('I', e) / ('F', d, classified) / ('W', word) / ('?', text)"""
    if o.kind == 'stop':
        if not o.calls:
            return ('?', 'stops')
        c, av, ins, fn = o.calls[-1][:4]
        if c in ERRS:
            a = sem.single(av[0]) if av else None
            nm = None
            if a and a[0] == 'ld':
                g = sem.single(a[1])
                m = ATOM.match(g[1]) if g and g[0] == 'g' else None
                nm = m.group(1) if m else None
            return ('err', ERRS[c], nm, av[1] if len(av) > 1 else None)
        return ('?', 'calls %s' % c)
    w = o.value
    if sem.is_const(w) and w[0] % 8 == tags['INT'] or not sem.is_const(w) and sem.content(w) % 8 == 0 and w[0] % 8 == tags['INT']:
        return ('I', (w[0] // 8, tuple((x, c // 8) for x, c in w[1])))
    push = [k for k in o.calls if k[0] == 'Pl_Global_Push_Float']
    if push and w[0] % 8 == tags['FLT']:
        d = push[-1][1][0]
        return ('F', d)
    if len(w[1]) and sem.content(w) % 8 == 0 and w[0] % 8 == tags['FLT']:
        return ('W', w)
    return ('?', 'returns ' + show(w))


def classified(o, d, cls):
    """d is known to be neither NaN nor infinite"""
    k = A(('call', 'Pl_Classify_Double', d))
    return o.facts.nonzero(off(k, -cls['NAN'])) and o.facts.nonzero(off(k, -cls['INF']))


def norm_call(v):
    """llvm.fabs.f64(x) = fabs(x)"""
    def a(x):
        if isinstance(x, tuple):
            if x and x[0] == 'call' and isinstance(x[1], str):
                n = x[1]
                if n.startswith('llvm.') and n.endswith('.f64'):
                    n = n[5:-4]
                return ('call', n) + tuple(a(y) for y in x[2:])
            return tuple(a(y) for y in x)
        return x
    return a(v)


def place(o, default):
    ins, fn = (o.calls[-1][2], o.calls[-1][3]) if o.kind == 'stop' and o.calls else (None, default)
    return fn.loc(ins) if ins is not None else '%s (%s)' % (default.name, os.path.basename(default.file))


def murky(got, f, exp):
    """the value or the path depends on something the analysis knows nothing about: a mismatch is not established"""
    def foreign(x):
        if isinstance(x, tuple):
            if x and x[0] in ('ret', 'loop', 'loopm', 'ssa', '?', 'ce', 'xv') and len(x) > 1:
                return True
            if len(x) == 4 and x[0] in ('shl', 'ashr', 'lshr') and isinstance(x[1], str):
                return f.entails(x[3]) and f.entails(off(scale(x[3], -1), 63))
            return any(foreign(y) for y in x)
        return False
    if exp.kind in ('gcd', 'pow'):
        return False
    return any(foreign(v) for v in got[1:] if isinstance(v, tuple)) and exp.kind not in ('err',) or any(foreign(e) for e in f.ge + f.ne) and not uses_loop(f) or any(foreign(x) for x in f.truth) and not uses_loop(f)


def uses_loop(f):
    """the loops of gcd/2 and ^/2 have their own invariants"""
    def lp(x):
        return isinstance(x, tuple) and (bool(x) and x[0] in ('loop', 'loopm') or any(lp(y) for y in x))
    return any(lp(e) for e in f.ge + f.ne) or any(lp(x) for x in f.truth)


class Checker:
    def __init__(self, rep, prog, tags, cls):
        self.rep, self.prog, self.tags, self.cls = rep, prog, tags, cls
        self.done = {}
        self.bad = set()

    def vio(self, key, text, detail=None):
        if key not in self.bad:
            self.bad.add(key)
            self.rep.violation(key, text, detail)

    def machine(self, loop=None):
        return Machine(self.prog, enter=self.enter, loop=loop)

    def enter(self, g):
        return g.name not in ('Pl_Global_Push_Float', 'Pl_Obtain_Float', 'Pl_Classify_Double')

    def run(self, fn, words, conds, loop=None):
        f = Facts()
        for c in conds:
            c(f)
        if not f.close():
            return []
        m = self.machine(loop)
        return m.run(fn, words, f)

    # one operand combination of one function
    def compare(self, what, fn, words, conds, spec, names, loop=None):
        try:
            outs = self.run(fn, words, conds, loop)
        except Limit as e:
            self.rep.undecided.append('%s %s: %s' % (what, '/'.join(names), e))
            return
        self.rep.count(paths=len(outs))
        nret = 0
        for o in outs:
            if o.kind == 'back':
                continue
            nret += 1
            got = outcome(o, self.tags)
            if got[0] == 'F' and not classified(o, got[1], self.cls):
                self.vio('%s:float-unchecked' % what, '%s: a float result reaches the heap without having been checked to be neither NaN nor infinite' % what, place(o, fn))
                continue
            if got[0] == 'err' and got[1] == 'evaluation':
                # the generic check of float results
                t = o.calls[-1]
                ks = [x for x in o.facts.known if x[0] == 'call' and x[1] == 'Pl_Classify_Double']
                if ks:
                    d = ks[-1][2]
                    isn = o.facts.zero(off(A(ks[-1]), -self.cls['NAN']))
                    isi = o.facts.zero(off(A(ks[-1]), -self.cls['INF']))
                    want = 'undefined' if isn else 'float_overflow' if isi else None
                    if want is None or got[2] != want:
                        self.vio('%s:float-class' % what, '%s: %s is raised for a result that is %s' % (
                            what, got[2], 'NaN' if isn else 'infinite' if isi else 'neither NaN nor infinite'), place(o, fn))
                        continue
                    got = ('F', d)
            for conds2, exp in spec:
                f = Facts(o.facts)
                for c in conds2:
                    c(f)
                if not f.close():
                    continue
                self.rep.count(obligations=1)
                r = self.match(got, exp, f, words, o)
                if r is False and murky(got, f, exp):
                    r = None
                if r is None:
                    self.rep.undecided.append('%s: %s against %s' % (what, self.gots(got), exp))
                elif not r:
                    self.vio('%s:%s' % (what, exp), '%s (%s): %s where %s is required%s' % (
                        what, fn.name, self.gots(got), exp, self.when(f, conds, names)), place(o, fn))
        if not nret:
            self.rep.undecided.append('%s: no path ends (%s)' % (what, '/'.join(names)))

    def when(self, f, conds, names):
        g = Facts()
        for c in conds:
            c(g)
        es = [e for e in f.ge if e not in g.ge][:4]
        return (' with operands ' + ', '.join(names)) + (' when ' + ', '.join(show(e) + ' >= 0' for e in es) if es else '')

    def gots(self, got):
        if got[0] == 'err':
            return 'raises %s_error(%s%s)' % (got[1], got[2], ', ...' if got[3] is not None else '')
        if got[0] == 'I':
            return 'returns the integer ' + show(got[1])
        if got[0] == 'F':
            return 'returns the float ' + show(got[1])
        if got[0] == 'W':
            return 'returns its operand ' + show(got[1])
        return got[1]

    def match(self, got, exp, f, words, o):
        if got[0] == '?':
            return False
        if exp.kind == 'err':
            if got[0] != 'err' or got[1] != exp.a[0] or got[2] != exp.a[1]:
                return False
            if exp.a[2:] and exp.a[2] is not None:
                return got[3] is not None and got[3] == words[exp.a[2][1]]
            return True
        if exp.kind == 'gcd':
            return self.gcd_ok(got, f, o)
        if exp.kind == 'pow':
            return self.pow_ok(got, f, o)
        if got[0] == 'err':
            return False
        if exp.kind == 'I':
            if got[0] != 'I':
                return False
            d = f.value(sub(got[1], exp.a[0]))
            f.axioms(d)
            return f.zero(d)
        if exp.kind == 'F':
            return got[0] == 'F' and any(norm_call(got[1]) == e for e in exp.a)
        if exp.kind == 'W':
            return got[0] in ('W', 'I') and o.value == exp.a[0]
        return None

    # loops: invariants of Euclid's algorithm and of exponentiation by squaring
    def gcd_loop(self, x, y):
        st = {}

        def hook(m, fn, b, s, init, vals, minit, mvals):
            ks = list(vals)
            ok = len(ks) == 2 and not mvals
            if ok:
                def isabs(v, e):
                    d1, d2 = sub(v, e), add(v, e)
                    return s.facts.zero(d1) and s.facts.entails(v) or s.facts.zero(d2) and s.facts.entails(v)
                a, c = ks
                ok = isabs(init[a], x) and isabs(init[c], y) or isabs(init[a], y) and isabs(init[c], x)
                for k in ks:
                    s.facts.add_ge(vals[k])
            st.setdefault('ok', True)
            st['ok'] = st['ok'] and ok
            st.setdefault('ins', []).append((fn, b, dict(vals), dict(init)))
        self.gst = st
        return hook

    def gcd_back(self, what, fn, outs):
        for o in outs:
            if o.kind != 'back':
                continue
            (hn, hb, _), new, env = o.info
            h = [i for i in self.gst['ins'] if i[0].name == hn and i[1] == hb]
            vals = h[-1][2]
            ks = list(vals)
            if len(ks) != 2:
                return None
            # the loop variables of this entry
            loops = {k: env.get(k) for k in ks}
            P, Q = loops[ks[0]], loops[ks[1]]
            n = [new[k] for k in ks]
            good = False
            for a, b in ((P, Q), (Q, P)):
                r = srem(a, b)
                if n in ([b, r], [r, b]) and o.facts.nonzero(b):
                    good = True
            if not good:
                return False
        return True

    def gcd_ok(self, got, f, o):
        if got[0] != 'I':
            return False
        if not self.gst.get('ok'):
            return None
        v = sem.single(got[1])
        lv = [x for x in f.known if x[0] == 'loop']
        if v is None or v[0] != 'loop':
            # a result computed without the loop
            return None if not lv else False
        others = [x for x in lv if x != v and x[:3] == v[:3] and x[4] == v[4]]
        return any(f.zero(A(x)) for x in others)

    def pow_loop(self, x, y):
        st = {'heads': []}

        def hook(m, fn, b, s, init, vals, minit, mvals):
            ini = dict(init)
            ini.update(minit)
            cur = dict(vals)
            cur.update(mvals)
            role = {}
            for k, v in ini.items():
                if v is None:
                    continue
                if v == C(1) and 'r' not in role:
                    role['r'] = k
                elif s.facts.zero(sub(v, x)) and 'a' not in role:
                    role['a'] = k
                elif s.facts.zero(sub(v, y)) and 'b' not in role:
                    role['b'] = k
            st['heads'].append((fn.name, b, {k: cur[v] for k, v in role.items()}, role))
            if 'b' in role and s.facts.entails(y):
                s.facts.add_ge(cur[role['b']])
        self.pst = st
        return hook

    def pow_step(self, h, f, r2, a2, b2):
        """the invariant r * a^b is kept by (r2, a2, b2)"""
        r, a, b = h['r'], h['a'], h['b']
        if b2 == ashr(b, 1):
            odd = bitop('and', b, C(1))
            if f.zero(odd):
                return r2 == r and a2 == mul(a, a)
            if f.zero(off(odd, -1)):
                return r2 == mul(r, a) and a2 == mul(a, a)
            return None
        if f.zero(sub(b2, off(b, -1))):
            return a2 == a and r2 == mul(r, a)
        return None

    def pow_back(self, fn, outs):
        res = True
        for o in outs:
            if o.kind != 'back':
                continue
            (hn, hb, _), new, env = o.info
            h = [q for q in self.pst['heads'] if q[0] == hn and q[1] == hb and set(q[2]) == {'r', 'a', 'b'} and any(v in env.values() or v == o.mem.get(k) or True for k, v in q[2].items())]
            ok = None
            for q in h:
                role, cur = q[3], q[2]
                val = lambda k: new.get(k) if k in new else o.mem.get(k)
                r2, a2, b2 = val(role['r']), val(role['a']), val(role['b'])
                if None in (r2, a2, b2):
                    continue
                if not any(sem.single(cur['b']) in o.facts.known for _ in (1,)):
                    continue
                t = self.pow_step(cur, o.facts, r2, a2, b2)
                ok = t if ok is None or t else ok
            if ok is None:
                return None
            res = res and ok
        return res

    def pow_ok(self, got, f, o):
        hs = [q for q in self.pst['heads'] if set(q[2]) == {'r', 'a', 'b'} and any(sem.single(v) in f.known for v in q[2].values())]
        if not hs:
            return None
        h = hs[-1][2]
        r, a, b = h['r'], h['a'], h['b']
        odd = bitop('and', b, C(1))
        if got[0] == 'I':
            if f.zero(ashr(b, 1)) and f.zero(off(odd, -1)):
                p = mul(r, a)
            elif f.zero(b) or f.zero(ashr(b, 1)) and f.zero(odd):
                p = r
            else:
                return False
            return got[1] == p and f.entails(off(p, -LO)) and f.entails(off(scale(p, -1), HI))
        if got[:3] != ('err', 'evaluation', 'int_overflow'):
            return False
        # a product that is too large: r*a when b is odd (a factor of the result), a*a when more is to come
        tr = [x for x, t in f.truth.items() if x[0] == 'smulo' and t]
        pr = mul(r, a)
        for x in tr:
            p = mul(x[1], x[2])
            if p == pr and f.zero(off(odd, -1)) or p == mul(a, a) and f.nonzero(ashr(b, 1)):
                return True
        for p in (r, pr):
            if f.entails(off(p, -HI - 1)) or f.entails(off(scale(p, -1), LO - 1)):
                return f.zero(ashr(b, 1)) or p == pr
        return False


def text(unit, a):
    """the C string among the arguments of the call that made the value a"""
    from gpl.absint import string_of
    for x in a[3:]:
        g = sem.single(x) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) else None
        if g and g[0] == 'g':
            r = string_of(unit, ['g', g[1], 0])
            return r.decode('latin1') if isinstance(r, bytes) else r
    return None


def functor(v):
    """atom expression and arity of a functor/arity word"""
    if len(v[1]) == 1 and v[1][0][1] == 1 and v[1][0][0][0] == 'ret':
        return v[1][0][0], v[0] >> 54
    a = sem.single(v)
    if a and a[0] == 'or':
        k = [x for x in a[1:] if not x[1]]
        w = [x for x in a[1:] if x[1]]
        if len(k) == 1 and len(w) == 1 and sem.single(w[0]):
            return sem.single(w[0]), k[0][0] >> 54
    return None, None


def tables(prog, unit, rep):
    """the functors registered for the interpreter: name, arity -> (signature, iso, function, place)"""
    res = {}
    for f in unit.fns.values():
        if not any(ir.callee(i) == 'Pl_HTBL_Insert' for _, i in f.calls()):
            continue
        found = []

        def oncall(c, av, s, ins, fn):
            if c == 'Pl_HTBL_Insert' and len(av) >= 2:
                vals = {}
                for a, v in s.mem.items():
                    d = sub(a, av[1])
                    if not d[1]:
                        vals[d[0]] = v
                found.append((vals, fn.loc(ins)))
        m = Machine(prog, enter=lambda g: g.internal)
        m.oncall = oncall
        try:
            m.run(f, [A(('arg', i)) for i in range(len(f.args))])
        except Limit as e:
            rep.undecided.append('registration of the evaluable functors: %s' % e)
        for vals, loc in found:
            name = arity = sig = fct = iso = None
            for o, v in sorted(vals.items()):
                a = sem.single(v)
                if a and a[0] == 'fn':
                    fct = a[1]
                elif o == 0:
                    n, arity = functor(v)
                    name = text(unit, n) if n else None
                elif a and a[0] == 'ret' and a[1] == 'Pl_Create_Atom':
                    sig = text(unit, a)
                elif not v[1]:
                    iso = v[0]
            if name is None or fct is None:
                rep.undecided.append('registration of an evaluable functor at %s is not understood' % loc)
                continue
            if (name, arity) in res and res[name, arity][2] != fct:
                pass                        # the first registration stays
            else:
                res[name, arity] = (sig, iso, fct, loc)
    return res


def inlined(rep):
    """the C functions the compiler uses for arithmetic: {table: {(name, arity): function}}"""
    p = os.path.join(prep.REPO, 'src/Pl2Wam/code_gen.pl')
    pf = plread.PlFile(p)
    t = {'math_exp_functor_name': {}, 'fast_exp_functor_name': {}, 'math_cmp_functor_name': {}, 'fast_cmp_functor_name': {}}
    for (nm, _), cls in pf.preds.items():
        for cl in cls:
            h = cl.head
            if nm not in t or any(isinstance(x, plread.V) for x in h.args[:1]):
                continue
            a = [x.name if isinstance(x, (plread.A, plread.C)) else x for x in h.args]
            if len(a) == 3 and isinstance(a[2], str):
                t[nm].setdefault((a[0], a[1]), a[2])
            elif len(a) == 2 and isinstance(a[1], str):
                t[nm].setdefault(a[0], a[1])
    return t


def constants(rep):
    src = '#include "engine_pl.h"\n#include "bips_pl.h"\n'
    for n, e in (('INT', 'TAG_INT_MASK'), ('FLT', 'TAG_FLT_MASK'), ('NAN', 'PL_FP_NAN'), ('INF', 'PL_FP_INFINITE'), ('LO', 'INT_LOWEST_VALUE'), ('HI', 'INT_GREATEST_VALUE')):
        src += 'PlLong k_%s(void) { return %s; }\n' % (n, e)
    for t in TAGS:
        src += 'PlLong k_T%s(void) { return TAG_%s_MASK; }\n' % (t, t)
    src += 'PlLong k_NIL(void) { return NIL_WORD; }\nPlLong k_SLASH(void) { return ATOM_CHAR(\'/\'); }\nPlLong k_DOT(void) { return ATOM_CHAR(\'.\'); }\n'
    src += 'PlLong w_atom(WamWord w) { return UnTag_ATM(w); }\nPlLong w_func(WamWord w) { return Functor(UnTag_STC(w)); }\nPlLong w_arity(WamWord w) { return Arity(UnTag_STC(w)); }\n'
    src += 'WamWord w_arg0(WamWord w) { return Arg(UnTag_STC(w), 0); }\nWamWord w_arg1(WamWord w) { return Arg(UnTag_STC(w), 1); }\n'
    src += 'WamWord w_car(WamWord w) { return Car(UnTag_LST(w)); }\nWamWord w_cdr(WamWord w) { return Cdr(UnTag_LST(w)); }\nPlLong w_int(WamWord w) { return UnTag_INT(w); }\n'
    p = os.path.join(prep.WORK, 'probe-c09.%d.c' % os.getpid())
    with open(p, 'w') as f:
        f.write(src)
    try:
        prog = ir.Program([('BipsPl', p)])
    finally:
        os.unlink(p)
    K = {}
    for f in prog.allfns():
        if f.name.startswith('k_'):
            o = Machine(prog).run(f, [])
            if len(o) == 1 and not o[0].value[1]:
                K[f.name[2:]] = o[0].value[0]
        if f.name.startswith('w_'):
            o = Machine(prog).run(f, [A(('hole',))])
            if len(o) == 1:
                K[f.name] = o[0].value
    if not {'INT', 'FLT', 'NAN', 'INF', 'LO', 'HI', 'NIL', 'SLASH', 'DOT', 'w_atom', 'w_func', 'w_arity', 'w_arg0', 'w_arg1', 'w_car', 'w_cdr', 'w_int'} <= set(K):
        raise prep.AnalysisBroken('constants of the tagged words not found')
    return K


TAGS = ('REF', 'LST', 'STC', 'ATM', 'FLT', 'FDV', 'INT')


def subst(e, v):
    """e with the word v for the hole"""
    def at(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], int) and len(x) == 2 and isinstance(x[1], tuple) and all(isinstance(y, tuple) and len(y) == 2 for y in x[1]):
                return lin(x)
            return tuple(at(y) for y in x)
        return x

    def lin(l):
        r = C(l[0])
        for x, c in l[1]:
            r = add(r, scale(v if x == ('hole',) else A(at(x)), c))
        return r
    return lin(e)


class Shape:
    """what a path knows of the type of a dereferenced word"""
    def __init__(self, K):
        self.K = K

    def tagc(self, d, t):
        g = bitop('and', d, C(7))
        return eq(off(g, -self.K['T' + t]))

    def possible(self, f, d, tags=TAGS):
        r = []
        for t in tags:
            g = Facts(f)
            self.tagc(d, t)(g)
            if g.close():
                r.append(t)
        return r

    def get(self, what, d):
        return subst(self.K['w_' + what], d)


def errof(o, f=None):
    """(class, atom, culprit) of the error a path ends with"""
    if o.kind != 'stop' or not o.calls or o.calls[-1][0] not in ERRS:
        return None
    return outcome(o, {'INT': 7, 'FLT': 4})[1:]


def canbe(f, e, k):
    """may e be k?"""
    for _ in range(4):
        a = sem.single(e)
        if a and a[0] == 'trunc':                # a field that holds small numbers
            g = sem.Facts(f)
            g.add_eq(off(e, -k))
            if not g.close():
                return False
            e = a[2]
    g = sem.Facts(f)
    g.add_eq(off(e, -k))
    return g.close()


def evaluator(ck, K):
    """the evaluation of an expression: by the type of the dereferenced expression"""
    S = Shape(K)
    prog, rep = ck.prog, ck.rep
    D = lambda w: A(('deref', w))
    name = 'Load_Math_Expression'
    fn = prog.fn(name, ck.unit)
    ev = prog.fn('Pl_Arith_Evaluate_2')
    if fn is None or ev is None:
        rep.undecided.append('the evaluator Load_Math_Expression / Pl_Arith_Evaluate_2 is not found')
        return
    keep = {name, 'Pl_Lookup_Evaluable', 'Pl_Put_Structure', 'Pl_Unify_Atom', 'Pl_Unify_Integer', 'Pl_Unify', 'Pl_Get_Integer'}
    go = lambda f, n: Machine(prog, enter=lambda g: g.name not in keep and not g.name.startswith('Pl_Hash'), loop=sem.deref_hook).run(f, [A(('v', 'w%d' % i)) for i in range(n)])
    W = lambda i: A(('v', 'w%d' % i))
    is_rec = lambda v, w: (sem.single(v) or (0,))[0] == 'ret' and sem.single(v)[1] == name and sem.single(v)[3:] == (w,)

    def bad(key, o, text_):
        ck.vio('evaluate:' + key, 'evaluation of an expression (%s): %s' % (fn.name, text_), place(o, fn))

    def pi_culprit(o, func, arity):
        cs = [c for c in o.calls if c[0] in ('Pl_Put_Structure', 'Pl_Unify_Atom', 'Pl_Unify_Integer')][-3:]
        return [c[0] for c in cs] == ['Pl_Put_Structure', 'Pl_Unify_Atom', 'Pl_Unify_Integer'] and cs[0][1] == (C(K['SLASH']), C(2)) and \
            cs[1][1] == (func,) and cs[2][1] == (arity,)
    d = D(W(0))
    narrow = lambda e: e
    for o in go(fn, 1):
        if o.kind == 'back':
            continue
        rep.count(paths=1)
        for t in S.possible(o.facts, d):
            rep.count(obligations=1)
            e = errof(o)
            ind = [c for c in o.calls if c[0] is None]
            if t in ('INT', 'FLT'):
                if o.kind != 'ret' or o.value not in (d, W(0)):
                    bad('number', o, 'a number does not evaluate to itself')
            elif t == 'REF':
                if not e or e[0] != 'instantiation':
                    bad('var', o, 'a variable does not raise instantiation_error')
            elif t == 'FDV':
                if not e or e[0] not in ('instantiation', 'type'):
                    bad('fdvar', o, 'an FD variable does not raise an error')
            elif t == 'LST':
                car, cdr = S.get('car', d), S.get('cdr', d)
                isnil = o.facts.zero(off(D(cdr), -K['NIL']))
                if e and e[:2] == ('type', 'evaluable'):
                    if isnil or not pi_culprit(o, C(K['DOT']), C(2)):
                        bad('list', o, 'a list of one element is refused, or the culprit is not (.)/2')
                elif not (isnil or o.facts.zero(off(A(('ld', D(cdr))), -K['NIL'])) and S.possible(o.facts, D(cdr)) == ['REF']):
                    bad('list-tail', o, 'a list whose tail is not [] is evaluated')
                else:
                    for u in S.possible(o.facts, D(car)):
                        if u == 'INT' and (o.kind != 'ret' or o.value != D(car)):
                            bad('list-int', o, '[X] does not evaluate to the integer X')
                        if u == 'REF' and (not e or e[0] != 'instantiation'):
                            bad('list-var', o, '[X] with X a variable does not raise instantiation_error')
                        if u not in ('INT', 'REF') and not e:
                            bad('list-other', o, '[X] evaluates although X is not an integer')
            else:
                func = S.get('atom', d) if t == 'ATM' else S.get('func', d)
                ar = C(0) if t == 'ATM' else S.get('arity', d)
                if e:
                    if e[:2] != ('type', 'evaluable') or not pi_culprit(o, func, ar):
                        bad('unknown', o, 'an unknown functor does not raise type_error(evaluable, Name/Arity)')
                    continue
                want = [k for k in (0, 1, 2) if self_eq(o.facts, ar, k)]
                if o.kind != 'ret' or len(ind) != 1 or (sem.single(o.value) or (0,))[0] != 'ret' or o.calls[-1] is not ind[0]:
                    bad('call', o, 'the value of %s is not that of the function of its functor' % ('an atom' if t == 'ATM' else 'a compound term'))
                    continue
                av = ind[0][1]
                n = len(av)
                if n and not is_rec(av[0], S.get('arg0', d)) or n > 1 and not is_rec(av[1], S.get('arg1', d)) or n > 2:
                    bad('arguments', o, 'the operands passed to the function are not the values of the arguments, in order')
                elif want and want != [n]:
                    bad('arity', o, 'an expression of %d arguments is evaluated with %d operands' % (want[0], n))
                elif not want and any(k != n and canbe(o.facts, ar, k) for k in (0, 1, 2)):
                    bad('arity', o, 'an expression is evaluated with %d operands whatever its arity' % n)
    outs = [o for o in go(ev, 2) if o.kind != 'back']
    for o in outs:
        rep.count(paths=1, obligations=1)
        u = [c for c in o.calls if c[0] == 'Pl_Unify']
        if o.kind != 'ret' or len(u) != 1 or set(u[0][1]) & {W(0)} != {W(0)} or not any(is_rec(v, W(1)) for v in u[0][1]) or (sem.single(o.value) or (0, 0))[1] != 'Pl_Unify':
            ck.vio('evaluate:is', 'is/2 does not unify its first argument with the value of its second (Pl_Arith_Evaluate_2)', place(o, ev))
    ml = prog.fn('Pl_Math_Load_Value')
    if ml is None:
        rep.undecided.append('Pl_Math_Load_Value is not found')
        return
    for o in go(ml, 2):
        if o.kind == 'back':
            continue
        rep.count(paths=1)
        v = o.mem.get(W(1))
        for t in S.possible(o.facts, d):
            rep.count(obligations=1)
            num = t in ('INT', 'FLT')
            ok = v == d if num else False
            ok = ok or v is not None and (is_rec(v, d) or is_rec(v, W(0)) or t == 'REF' and is_rec(v, A(('ld', d))))
            if o.kind != 'ret' or not ok:
                ck.vio('load:' + ('number' if num else 'expression'), 'compiled arithmetic (Pl_Math_Load_Value): the operand is not %s' % ('the dereferenced number' if num else 'the value of the expression'), place(o, ml))


def self_eq(f, e, k):
    return f.zero(off(e, -k))


def succ(ck, K):
    """succ/2 by the types and signs of its arguments"""
    S = Shape(K)
    prog, rep = ck.prog, ck.rep
    fn = prog.fn('Pl_Succ_2')
    if fn is None:
        rep.undecided.append('Pl_Succ_2 is not found')
        return
    X, Y = A(('v', 'x')), A(('v', 'y'))
    DX, DY = A(('deref', X)), A(('deref', Y))
    ix, iy = S.get('int', DX), S.get('int', DY)
    keep = {'Pl_Get_Integer', 'Pl_Get_Integer_Tagged', 'Pl_Unify'}
    f0 = Facts()
    for i in (ix, iy):
        f0.add_ge(off(i, -LO))
        f0.add_ge(off(scale(i, -1), HI))
    outs = Machine(prog, enter=lambda g: g.name not in keep, loop=sem.deref_hook).run(fn, [X, Y], f0)
    neg, nonneg = lt0, ge
    for o in outs:
        if o.kind == 'back':
            continue
        rep.count(paths=1)
        e = errof(o)
        uni = [c for c in o.calls if c[0] in ('Pl_Get_Integer', 'Pl_Get_Integer_Tagged')]
        for tx in S.possible(o.facts, DX):
            for ty in S.possible(o.facts, DY):
                for cx in ([neg, nonneg] if tx == 'INT' else [None]):
                    for cy in ([neg, nonneg] if ty == 'INT' else [None]):
                        f = Facts(o.facts)
                        S.tagc(DX, tx)(f)
                        S.tagc(DY, ty)(f)
                        if cx:
                            cx(ix)(f)
                        if cy:
                            cy(iy)(f)
                        if not f.close():
                            continue
                        rep.count(obligations=1)
                        one = lambda t: 'a variable' if t == 'REF' else 'an integer' if t == 'INT' else 'another term'
                        var = lambda t: t in ('REF', 'FDV')
                        errs = set()
                        if var(tx) and var(ty):
                            errs = {('instantiation',)}
                        for t, c in ((tx, cx), (ty, cy)):
                            if t not in ('REF', 'FDV', 'INT'):
                                errs.add(('type', 'integer'))
                            if c is neg:
                                errs.add(('domain', 'not_less_than_zero'))
                        where = 'succ/2 with %s%s and %s%s' % (one(tx), ' (negative)' if cx is neg else '', one(ty), ' (negative)' if cy is neg else '')
                        if 'FDV' in (tx, ty):
                            continue
                        if errs:
                            if not e or (e[:1] if e[0] == 'instantiation' else e[:2]) not in errs:
                                ck.vio('succ:%s:%s' % (tx, ty), '%s does not raise %s' % (where, ' or '.join('_error('.join(x) for x in errs)), place(o, fn))
                            continue
                        if e:
                            if not (e[:2] == ('evaluation', 'int_overflow') and tx == 'INT' and var(ty) and f.zero(off(ix, -HI))):
                                ck.vio('succ:error:%s:%s' % (tx, ty), '%s raises %s_error' % (where, e[0]), place(o, fn))
                            continue
                        if tx == 'INT':
                            good = len(uni) == 1 and uni[0][1][0] == off(ix, 1) and uni[0][1][1] in (Y, DY) and sem.single(o.value) is not None and o.kind == 'ret'
                            if ty == 'REF' and not f.nonzero(off(ix, -HI)):
                                good = False
                        else:
                            fails = f.zero(iy)
                            good = (fails and o.kind == 'ret' and f.zero(o.value)) or \
                                (len(uni) == 1 and uni[0][1][0] == off(iy, -1) and uni[0][1][1] in (X, DX, A(('ld', DX))) and f.entails(off(iy, -1)))
                        if not good:
                            ck.vio('succ:value:%s:%s' % (tx, ty), '%s does not unify the other argument with the successor / predecessor' % where, place(o, fn))


def classify(ck):
    """Pl_Classify_Double tells NaN and the infinities from the rest"""
    fn = ck.prog.fn('Pl_Classify_Double')
    if fn is None:
        ck.rep.undecided.append('Pl_Classify_Double is not found')
        return
    d = A(('v', 'd'))
    fab = ('llvm.fabs.f64', 'fabs')
    for o in Machine(ck.prog).run(fn, [d]):
        f = o.facts
        nan = f.truth.get(('fcmp', 'uno', d, d))
        inf = None
        for x, t in f.truth.items():
            if x[0] == 'fcmp' and x[1] in ('oeq', 'uno') and x[2] == x[3] == d and x[1] == 'oeq':
                nan = not t
            s = [sem.single(z) for z in x[2:4]] if x[0] == 'fcmp' else []
            if x[0] == 'fcmp' and x[1] == 'oeq' and any(z and z[0] == 'f' and 'inf' in z[1].lower() for z in s):
                inf = True if t else inf if inf else False
            if x[0] == 'fcmp' and t and x[1] in ('oeq', 'olt', 'ole') and any(z and z[0] == 'f' and 'inf' not in z[1].lower() for z in s):
                nan, inf = False, (False if inf is None else inf)
        ck.rep.count(paths=1, obligations=1)
        v = o.value[0] if o.kind == 'ret' and not o.value[1] else None
        want = ck.cls['NAN'] if nan else ck.cls['INF'] if inf else None
        if v is None or nan is None or nan is False and inf is None:
            ck.rep.undecided.append('Pl_Classify_Double: a path is not understood')
        elif want is not None and v != want or want is None and v in (ck.cls['NAN'], ck.cls['INF']):
            ck.vio('classify', 'Pl_Classify_Double returns %d for a number that is %s' % (v, 'NaN' if nan else 'infinite' if inf else 'finite'), 'Pl_Classify_Double (arith_inl_c.c)')


def cells(n):
    """ranges of the second operand of a shift, each with (sign, amount)"""
    out = [((LO, -64), (-1, None)), ((64, HI), (1, None))]
    for k in range(-63, 64):
        out.append(((k, k), (0 if k == 0 else k, abs(k))))
    return out


def functions(ck, what, name, arity, fn, fast):
    """compare one C function with the specification of name/arity"""
    sig, ispec, fspec = SPEC[name, arity]
    W = World(ck.prog, ck.tags)
    ins = sig.split('=')[0].split(',') if arity else []
    res = sig.split('=')[1]
    if len(fn.args) != arity:
        ck.vio(what + ':arity', '%s: the function %s takes %d operand(s), not %d' % (what, fn.name, len(fn.args), arity), fn.name)
        return
    if arity == 0:
        for o in ck.run(fn, [], []):
            got = outcome(o, ck.tags)
            v = sem.single(got[1]) if got[0] == 'F' else None
            ck.rep.count(obligations=1)
            if got[0] == 'err' and got[1] == 'evaluation':
                continue
            if not v or v[0] != 'f' or float(v[1]) != fspec:
                ck.vio(what, '%s: %s where %r is required' % (what, ck.gots(got), fspec), place(o, fn))
        return
    combos = [('I',)] if arity == 1 else [('I', 'I')]
    if not fast:
        combos = [('I',), ('F',)] if arity == 1 else [(a, b) for a in 'IF' for b in 'IF']
    for co in combos:
        ck.rep.count(combinations=1)
        names = [('integer ' if t == 'I' else 'float ') + 'xy'[i] for i, t in enumerate(co)]
        args = [W.int_arg('xy'[i]) if t == 'I' else W.flt_arg('xy'[i]) for i, t in enumerate(co)]
        words = [a[1] for a in args]
        conds = [c for a in args for c in a[2]]
        dbl = [a[0] if t == 'F' else A(('sitofp', 'd', a[0])) for a, t in zip(args, co)]
        ints = [a[0] for a in args]
        go = lambda spec, loop=None: ck.compare(what, fn, words, conds, spec, names, loop)
        wrong = [i for i, t in enumerate(co) if t not in ins[i]]
        if wrong and res != '=I' and not (sig == 'F=I'):
            ty = 'integer' if co[wrong[0]] == 'F' else 'float'
            go([([], V('err', 'type', ty, w_(wrong[0])))])
            continue
        if sig == 'F=I' and co == ('I',):
            rounding_int(ck, what, fn, words, conds, names)
            continue
        allint = all(t == 'I' for t in co)
        if fspec in ('min', 'max') and not allint:
            minmax(ck, what, fn, co, args, fspec)
            continue
        if name in ('<<', '>>') and arity == 2:
            for (lo, hi), n in cells(args[1]):
                y, wy, cy = W.int_arg('y', lo, hi, lo if lo == hi else None)
                ck.compare(what, fn, [words[0], wy], args[0][2] + cy, ispec(ints[0], y, n), [names[0], 'y = %d' % lo if lo == hi else 'y in %d..%d' % (lo, hi)])
            continue
        if name == 'gcd':
            loop = ck.gcd_loop(*ints)
            go(ispec(*ints), loop)
            outs = ck.run(fn, words, conds, ck.gcd_loop(*ints))
            r = ck.gcd_back(what, fn, outs)
            verdict(ck, what, r, fn, "the loop keeps the greatest common divisor (Euclid's step)")
            continue
        if name == '^' and allint:
            loop = ck.pow_loop(*ints)
            go(ispec(*ints), loop)
            outs = ck.run(fn, words, conds, ck.pow_loop(*ints))
            verdict(ck, what, ck.pow_back(fn, outs), fn, 'the loop keeps r * a^b')
            continue
        if allint and ispec is not None:
            go(ispec(*ints))
        elif fspec is not None:
            go(fspec(*dbl))
        elif ispec is i_id:
            go([([], V('W', words[0]))])
        else:
            ck.rep.undecided.append('%s: no specification for %s' % (what, names))


def guard(rep, what, f, *a):
    """code outside what the analysis understands leaves an obligation open"""
    try:
        f(*a)
    except prep.AnalysisBroken:
        raise
    except Exception as e:
        rep.undecided.append('%s: %s %s' % (what, type(e).__name__, e))


def verdict(ck, what, r, fn, text_):
    ck.rep.count(obligations=1)
    if r is None:
        ck.rep.undecided.append('%s: %s' % (what, text_))
    elif not r:
        ck.vio(what + ':loop', '%s (%s): an iteration does not do this: %s' % (what, fn.name, text_), '%s (%s)' % (fn.name, os.path.basename(fn.file)))


def rounding_int(ck, what, fn, words, conds, names):
    """an integer given to a rounding functor: itself, or type_error(float) in strict ISO mode"""
    outs = ck.run(fn, words, conds)
    kinds = set()
    for o in outs:
        ck.rep.count(paths=1, obligations=1)
        got = outcome(o, ck.tags)
        if got[0] == 'err':
            ok = got[1:3] == ('type', 'float') and got[3] == words[0]
        else:
            ok = o.value == words[0]
        kinds.add(got[0])
        if not ok:
            ck.vio(what + ':int', '%s: %s where the integer operand itself, or type_error(float) in strict ISO mode, is required' % (what, ck.gots(got)), place(o, fn))
    if kinds != {'err', 'I'} and kinds:
        ck.vio(what + ':int', '%s: the strict_iso flag does not decide between the value and type_error(float) of an integer operand' % what, fn.name)


def exact(t, e, cmp):
    """the value of operand kind t in a comparison that loses nothing"""
    return e


def minmax(ck, what, fn, co, args, which):
    """an operand is selected according to the exact order of the two numbers"""
    words = [a[1] for a in args]
    conds = [c for a in args for c in a[2]]
    outs = ck.run(fn, words, conds)
    for o in outs:
        ck.rep.count(paths=1, obligations=1)
        if o.kind == 'stop' or o.value not in words:
            ck.vio(what + ':select', '%s: %s where one of the operands is required' % (what, ck.gots(outcome(o, ck.tags))), place(o, fn))
            continue
        k = words.index(o.value)
        # what is known of the order of operand 0 and operand 1
        rel = order(o.facts, co, args)
        if rel == 'inexact':
            ck.vio(what + ':inexact', '%s: an integer is compared with a float after a conversion that can lose precision' % what, '%s (%s)' % (fn.name, os.path.basename(fn.file)))
            continue
        if rel is None:
            ck.rep.undecided.append('%s: the comparison behind the selection is not understood' % what)
            continue
        # rel: set of the possible orders among < = >
        for r in rel:
            if r == '=':
                ok = k == 0 if co[0] == 'F' and co[1] == 'I' else k == 1 if co[1] == 'F' and co[0] == 'I' else True
            else:
                first = (r == '<') == (which == 'min')
                ok = k == (0 if first else 1)
            if not ok:
                ck.vio(what + ':order:' + r, '%s: the %s operand is selected when the first operand (%s) is %s the second (%s)' % (
                    what, ('first', 'second')[k], 'float' if co[0] == 'F' else 'integer', {'<': 'less than', '=': 'equal to', '>': 'greater than'}[r],
                    'float' if co[1] == 'F' else 'integer'), place(o, fn))


def order(f, co, args):
    def side(v):
        """which operand v stands for, and whether exactly"""
        a = sem.single(v)
        exactly = True
        while a and a[0] in ('fpext', 'sitofp', 'fptrunc'):
            if a[0] == 'sitofp' and a[1] not in ('ld', 'fp128'):
                exactly = False
            v = a[2]
            a = sem.single(v)
        for i, x in enumerate(args):
            if v == x[0]:
                return i, exactly
        return None, exactly
    poss = {'<', '=', '>'}
    for x, t in f.truth.items():
        if x[0] != 'fcmp':
            return None
        (i, e1), (j, e2) = side(x[2]), side(x[3])
        if i is None or j is None:
            continue
        if not (e1 and e2):
            return 'inexact'
        if {i, j} != {0, 1}:
            return None
        rel = {'olt': {'<'}, 'ole': {'<', '='}, 'oeq': {'='}}.get(x[1])
        if rel is None:
            return None
        if i == 1:
            rel = {{'<': '>', '>': '<', '=': '='}[r] for r in rel}
        poss &= rel if t else {'<', '=', '>'} - rel
    return poss


def comparisons(ck, table, fast):
    for op, fname in sorted(table.items()):
        if op not in CMP:
            ck.rep.undecided.append('comparison %s has no specification' % op)
            continue
        fn = ck.prog.fn(fname)
        what = '%s (%s)' % (op, fname)
        if fn is None:
            ck.vio(what, '%s: the function %s does not exist' % (op, fname))
            continue
        W = World(ck.prog, ck.tags)
        for co in ([('I', 'I')] if fast else [(a, b) for a in 'IF' for b in 'IF']):
            ck.rep.count(combinations=1)
            args = [W.int_arg('xy'[i]) if t == 'I' else W.flt_arg('xy'[i]) for i, t in enumerate(co)]
            words = [a[1] for a in args]
            conds = [c for a in args for c in a[2]]
            names = [('integer ' if t == 'I' else 'float ') + 'xy'[i] for i, t in enumerate(co)]
            if co == ('I', 'I'):
                x, y = args[0][0], args[1][0]
                lt, eq_, gt = [lt0(sub(x, y))], [eq(sub(x, y))], [lt0(sub(y, x))]
            else:
                x, y = [a[0] if t == 'F' else A(('sitofp', 'd', a[0])) for a, t in zip(args, co)]
                lt, eq_, gt = [cond('olt', x, y)], [cond('oeq', x, y)], [cond('olt', y, x)]
                gt += [cond('oeq', x, y, False), cond('olt', x, y, False)]
                lt += [cond('oeq', x, y, False), cond('olt', y, x, False)]
                eq_ += [cond('olt', x, y, False), cond('olt', y, x, False)]
            k = CMP[op][0]
            want = {'lt': (1, 0, 0), 'le': (1, 1, 0), 'eq': (0, 1, 0), 'ne': (1, 0, 1), 'ge': (0, 1, 1), 'gt': (0, 0, 1)}[k]
            outs = ck.run(fn, words, conds)
            for o in outs:
                ck.rep.count(paths=1)
                if o.kind != 'ret':
                    ck.vio(what + ':stop', '%s: %s instead of succeeding or failing for %s' % (what, ck.gots(outcome(o, ck.tags)), ', '.join(names)), place(o, fn))
                    continue
                for cs, w, nm in zip((lt, eq_, gt), want, ('less than', 'equal to', 'greater than')):
                    f = Facts(o.facts)
                    for c in cs:
                        c(f)
                    if not f.close():
                        continue
                    ck.rep.count(obligations=1)
                    v = f.value(o.value)
                    if v[1]:
                        if f.zero(off(v, -w)) or w and f.nonzero(v):
                            continue
                        ck.rep.undecided.append('%s: result %s for %s' % (what, show(v), ', '.join(names)))
                    elif bool(v[0]) != bool(w):
                        ck.vio(what + ':' + nm, '%s %s when the first operand (%s) is %s the second (%s)' % (
                            what, 'succeeds' if v[0] else 'fails', names[0], nm, names[1]), '%s (%s)' % (fn.name, os.path.basename(fn.file)))


def run(rep):
    K = constants(rep)
    prog = ir.program()
    unit = next((u for r, u in prog.units.items() if os.path.basename(r).startswith(UNIT)), None)
    if unit is None:
        raise prep.AnalysisBroken('unit %s not found' % UNIT)
    if (K['LO'], K['HI']) != (LO, HI):
        rep.undecided.append('range of Prolog integers %d..%d' % (K['LO'], K['HI']))
    ck = Checker(rep, prog, {'INT': K['INT'], 'FLT': K['FLT']}, {'NAN': K['NAN'], 'INF': K['INF']})
    ck.unit = unit
    reg = tables(prog, unit, rep)
    rep.need(len(reg), 45, 'registered evaluable functors')
    inl = inlined(rep)
    rep.need(len(inl['math_exp_functor_name']), 45, 'functors inlined by the compiler')
    rep.need(len(inl['fast_exp_functor_name']), 20, 'functors of --fast-math')
    jobs = {}
    for (name, ar), (sig, iso, fct, loc) in sorted(reg.items()):
        if (name, ar) not in SPEC:
            rep.undecided.append('evaluable functor %s/%d has no specification' % (name, ar))
            continue
        jobs.setdefault((name, ar, fct, False), 'interpreter')
        rep.count(registrations=1)
        if sig != SPEC[name, ar][0]:
            ck.vio('%s/%d:signature' % (name, ar), '%s/%d is registered with the signature %s, documented is %s' % (name, ar, sig, SPEC[name, ar][0]), loc)
    for k in SPEC:
        if k not in reg:
            ck.vio('%s/%d:registered' % k, 'the evaluable functor %s/%d is not registered' % k)
    for t, fast in (('math_exp_functor_name', False), ('fast_exp_functor_name', True)):
        for (name, ar), fct in sorted(inl[t].items()):
            if (name, ar) not in SPEC:
                rep.undecided.append('inlined functor %s/%s has no specification' % (name, ar))
                continue
            jobs.setdefault((name, ar, fct, fast), 'compiled code')
    for (name, ar), (sig, i, f) in SPEC.items():
        if (name, ar) not in inl['math_exp_functor_name'] and (name, ar) != ('+', 1):
            ck.vio('%s/%d:inline' % (name, ar), 'the compiler does not know the evaluable functor %s/%d' % (name, ar), 'src/Pl2Wam/code_gen.pl')
    nf = set()
    for (name, ar, fct, fast), where in sorted(jobs.items()):
        fn = prog.fn(fct)
        what = '%s/%d in %s' % (name, ar, 'compiled --fast-math code' if fast else where)
        if fn is None:
            ck.vio(what, '%s: the function %s does not exist' % (what, fct))
            continue
        nf.add(fct)
        guard(rep, what, functions, ck, what, name, ar, fn, fast)
    guard(rep, 'the evaluator', evaluator, ck, K)
    guard(rep, 'succ/2', succ, ck, K)
    guard(rep, 'the classification of floats', classify, ck)
    guard(rep, 'comparisons', comparisons, ck, inl['math_cmp_functor_name'], False)
    guard(rep, 'comparisons --fast-math', comparisons, ck, inl['fast_cmp_functor_name'], True)
    rep.count(functions=len(nf) + len(inl['math_cmp_functor_name']) + len(inl['fast_cmp_functor_name']))
    rep.sample('evaluable functors: ' + ', '.join('%s/%d' % k for k in sorted(reg)))
    refcheck.units(rep, ['BipsPl/arith_inl_c.c'], only={'Arith_Initializer', 'Pl_Define_Math_Bip_2', 'Pl_Math_Load_Value', 'Load_Math_Expression', 'Pl_Math_Fast_Load_Value',
                                                       'Pl_Arith_Evaluate_2', 'Pl_Current_Evaluable_1', 'Pl_Current_Evaluable_Alt_0', 'Pl_Evaluable_Prop_Built_In_2',
                                                       'Pl_Evaluable_Prop_Static_2', 'Pl_Evaluable_Prop_ISO_2', 'Pl_Evaluable_Prop_Signature_3'})
    plref.check(rep, ['BipsPl/arith_inl.pl'])
    return rep

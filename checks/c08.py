"""C08: FD constraint rules keep every solution and reject every non-solution once all is known."""
import itertools
import json
import os
import random
import re
from gpl import fdfile, plref, prep, refcheck
from gpl.fdfile import show

RULE = ('Each constraint definition of BipsFD/*.fd is read as a set of rules "V in R" (with the guards of its wait_switch). '
        'Soundness: for arbitrary domains containing a solution of the relation the constraint stands for, the value of V in that solution belongs to R: '
        'a certificate, i.e. a polynomial with non-negative coefficients over min, value-min and max-value of each variable, is found for each bound, each case of the relation and each guard. '
        'Completeness: when all variables are known, for each case of the complement of the relation and each state of the switch, '
        'some active rule excludes the value (same kind of certificate). Constraints on 0/1 variables are decided by their truth tables over the three possible 0/1 domains.')

FILES = ['src/BipsFD/fd_math_fd.fd', 'src/BipsFD/fd_bool_fd.fd', 'src/BipsFD/fd_values_fd.fd']

# the relation each constraint stands for.  Integer parameters: 'coef' >= 1, 'nat' >= 0, otherwise any integer
REL = {
    'pl_x_eq_c': 'X = C', 'pl_x_in_l_u': 'L <= X && X <= U',
    'pl_x_eq_y': 'X = Y', 'pl_x_plus_c_eq_y': 'X + C = Y',
    'pl_x_neq_c': 'X != C', 'pl_x_neq_y': 'X != Y', 'pl_x_plus_c_neq_y': 'X + C != Y',
    'pl_x_lt_y': 'X < Y', 'pl_x_lte_c': 'X <= C', 'pl_x_lte_y': 'X <= Y', 'pl_x_plus_c_lte_y': 'X + C <= Y',
    'pl_x_gte_c': 'X >= C', 'pl_x_plus_c_gte_y': 'X + C >= Y',
    'pl_ax_eq_y': 'A * X = Y', 'pl_x_plus_y_eq_z': 'X + Y = Z', 'pl_ax_plus_y_eq_z': 'A * X + Y = Z',
    'pl_ax_plus_by_eq_z': 'A * X + B * Y = Z', 'pl_x_plus_y_plus_z_eq_t': 'X + Y + Z = T',
    'pl_ax_plus_y_plus_z_eq_t': 'A * X + Y + Z = T', 'pl_ax_plus_by_plus_z_eq_t': 'A * X + B * Y + Z = T',
    'pl_zero_power_n_eq_y': 'N = 0 && Y = 1 || N >= 1 && Y = 0',
    'pl_a_power_n_eq_y': 'Y = P(A, N)', 'pl_x_power_a_eq_y': 'Y = P(X, A)', 'pl_x2_eq_y': 'Y = X * X',
    'pl_xy_eq_z': 'Z = X * Y',
    'pl_min_x_y_eq_z': 'Z = X && X <= Y || Z = Y && Y <= X', 'pl_min_x_a_eq_z': 'Z = X && X <= A || Z = A && A <= X',
    'pl_max_x_y_eq_z': 'Z = X && X >= Y || Z = Y && Y >= X', 'pl_max_x_a_eq_z': 'Z = X && X >= A || Z = A && A >= X',
    'pl_abs_x_minus_y_eq_z': 'X = Y + Z || Y = X + Z', 'pl_abs_x_minus_a_eq_z': 'X = A + Z || A = X + Z',
    'pl_quot_rem_x_y_r_eq_z': 'X = Z * Y + R && R < Y', 'pl_quot_rem_a_y_r_eq_z': 'A = Z * Y + R && R < Y',
    'pl_quot_rem_x_a_r_eq_z': 'X = Z * A + R && R < A',
    'pl_fd_domain': 'L <= X && X <= U', 'pl_fd_not_domain': 'X < L || X > U',
}
COEF = {'pl_ax_eq_y', 'pl_ax_plus_y_eq_z', 'pl_ax_plus_by_eq_z', 'pl_ax_plus_y_plus_z_eq_t', 'pl_ax_plus_by_plus_z_eq_t',
        'pl_a_power_n_eq_y', 'pl_x_power_a_eq_y', 'pl_quot_rem_x_a_r_eq_z'}
NAT = {'pl_quot_rem_a_y_r_eq_z'}
# constraints on 0/1 variables
BOOL = {
    'pl_not_x_eq_b': lambda X, B: B == 1 - X, 'pl_x_equiv_y_eq_b': lambda X, Y, B: B == (X == Y),
    'pl_x_nequiv_y_eq_b': lambda X, Y, B: B == (X != Y), 'pl_x_imply_y_eq_b': lambda X, Y, B: B == (X <= Y),
    'pl_x_imply_y_eq_1': lambda X, Y: X <= Y, 'pl_x_nimply_y_eq_b': lambda X, Y, B: B == (X > Y),
    'pl_x_and_y_eq_b': lambda X, Y, B: B == (X and Y), 'pl_x_and_y_eq_0': lambda X, Y: not (X and Y),
    'pl_x_nand_y_eq_b': lambda X, Y, B: B == (not (X and Y)), 'pl_x_or_y_eq_b': lambda X, Y, B: B == (X or Y),
    'pl_x_or_y_eq_1': lambda X, Y: bool(X or Y), 'pl_x_nor_y_eq_b': lambda X, Y, B: B == (not (X or Y)),
}
PARAMS = json.load(open(os.path.join(prep.VERIF, 'data', 'fd-params.json')))
SAME = {'pl_fd_domain_r': ('var', 'R'), 'pl_fd_not_domain_r': ('compl', ('var', 'R'))}


# ---------------------------------------------------------------- polynomials
def pc(c):
    return {(): c} if c else {}


def pv(v):
    return {(v,): 1}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + k * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def psub(p, q):
    return padd(p, q, -1)


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            t = tuple(sorted(m + n))
            e = r.get(t, 0) + c * d
            if e:
                r[t] = e
            else:
                r.pop(t, None)
    return r


def psubst(p, v, q):
    r = {}
    for m, c in p.items():
        k = m.count(v)
        if not k:
            r = padd(r, {m: c})
            continue
        t = {tuple(x for x in m if x != v): c}
        for _ in range(k):
            t = pmul(t, q)
        r = padd(r, t)
    return r


def psyms(p):
    return {x for m in p for x in m}


def pstr(p):
    return ' + '.join('%s%s' % ('' if c == 1 and m else c, ('*' if c != 1 and m else '') + '*'.join(m)) for m, c in sorted(p.items())) or '0'


class Contradiction(Exception):
    pass


class Undec(Exception):
    pass


class Region:
    """A set of integer points described by equations over non-negative (and signed) symbols."""
    def __init__(r, signed, order):
        r.signed, r.order = set(signed), order
        r.sub, r.facts, r.eqs, r.n = [], [], [], 0

    def copy(r):
        q = Region(r.signed, r.order)
        q.sub, q.facts, q.eqs, q.n = list(r.sub), list(r.facts), list(r.eqs), r.n
        if hasattr(r, 'pw'):
            q.pw = r.pw
        return q

    def new(r, pre='s'):
        r.n += 1
        return pv('%s%d' % (pre, r.n))

    def red(r, p):
        for v, q in r.sub:
            p = psubst(p, v, q)
        return p

    def nonneg(r, p):
        return all(c > 0 and not any(x in r.signed for x in m) for m, c in p.items())

    def neg(r, p):
        return psub({}, p)

    def bind(r, v, q):
        r.sub = [(a, psubst(b, v, q)) for a, b in r.sub] + [(v, q)]
        old = r.facts
        r.facts = []
        for f in old:
            r.fact(psubst(f, v, q))
        es, r.eqs = r.eqs, []
        for e in es:
            r.eq(psubst(e, v, q))

    def fact(r, p):
        if r.nonneg(p):
            return
        n = r.neg(p)
        if r.nonneg(n):
            if n.get((), 0) > 0:
                raise Contradiction
            r.eq(p)
            return
        if p not in r.facts:
            for f in r.facts:
                n = r.neg(padd(p, f))
                if r.nonneg(n) and n.get((), 0) > 0:
                    raise Contradiction
            r.facts.append(p)

    def eq(r, p):
        p = r.red(p)
        if not p:
            return
        if set(p) == {()}:
            raise Contradiction
        for q in (p, r.neg(p)):
            if r.nonneg(q):
                if () in q:
                    raise Contradiction
                one = [m[0] for m in q if len(set(m)) == 1]
                for v in one:
                    r.bind(v, {})
                if len(one) < len(q):
                    q = r.red(q)
                    if q:
                        r.eqs.append(q)
                return
        cand = []
        for m, c in p.items():
            if len(m) == 1 and abs(c) == 1 and not any(m[0] in n and n != m for n in p):
                cand.append((m[0], c))
        if not cand:
            r.eqs.append(p)
            return
        sg = [x for x in cand if x[0] in r.signed]
        cand = sorted(sg or cand)
        k = r.order % len(cand)
        v, c = cand[k]
        rest = padd(p, {(v,): -c})
        q = r.neg(rest) if c == 1 else rest
        r.bind(v, q)
        if v not in r.signed:
            r.fact(q)

    def ge(r, p):
        p = r.red(p)
        if r.nonneg(p):
            return
        n = r.neg(p)
        if r.nonneg(n):
            if n.get((), 0) > 0:
                raise Contradiction
            r.eq(p)
            return
        r.eq(psub(p, r.new()))

    def settle(r):
        for _ in range(20):
            fs = [r.red(f) for f in r.facts]
            k = len(r.sub)
            r.facts = []
            for f in fs:
                r.fact(f)
            if len(r.sub) == k:
                return

    def proves(r, p):
        """p >= 0 everywhere in the region: by a certificate, or because p < 0 is contradictory"""
        if r.certificate(p):
            return True
        q = r.copy()
        try:
            q.ge(psub(q.neg(p), pc(1)))
            q.settle()
        except Contradiction:
            return True
        return False

    def certificate(r, p):
        p = r.red(p)
        if r.nonneg(p):
            return True
        fs = [r.red(f) for f in r.facts] + [x for e in r.eqs for x in (r.red(e), r.neg(r.red(e)))]
        for f in fs:
            if r.nonneg(psub(p, f)):
                return True
        # a fact times a symbol
        sy = sorted(x for x in psyms(p) if x not in r.signed)
        more = fs + [pmul(f, pv(x)) for f in fs for x in sy]
        for i, f in enumerate(more):
            d = psub(p, f)
            if r.nonneg(d):
                return True
            if len(more) <= 60:
                for g in more[i:]:
                    if r.nonneg(psub(d, g)):
                        return True
        return False

    def zero(r, p):
        return not r.red(p)


# ---------------------------------------------------------------- translation of expressions
NEG = {'=': '!=', '==': '!=', '!=': '=', '\\=': '=', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}


def parse(text):
    return fdfile.Parser(text, 'relation').expr()


def dnf(e, pos=True):
    """condition -> list of conjunctions of atoms"""
    if e[0] in ('&&', '||'):
        a, b = dnf(e[1], pos), dnf(e[2], pos)
        if (e[0] == '&&') == pos:
            return [x + y for x in a for y in b]
        return a + b
    if e[0] == 'lnot':
        return dnf(e[1], not pos)
    op = e[0]
    if op in NEG:
        t = bool_test(e)
        if t is not None:
            e, pos2 = t
            return dnf(e, pos == pos2)
        if not pos:
            op = NEG[op]
        if op in ('!=', '\\='):
            return [[('<', e[1], e[2])], [('>', e[1], e[2])]]
        if op == '==':
            op = '='
        return [[(op, e[1], e[2])]]
    if e[0] == 'call':
        if e[1] == 'Pl_Range_Test_Null_Inter' and len(e) == 4:
            return dnf(('!=' if pos else '=', elem(e[2]), elem(e[3])))
        if e[1] == 'Pl_Range_Test_Value' and len(e) == 4:
            return dnf(('=' if pos else '!=', elem(e[2]), e[3]))
    raise Undec('condition %s' % show(e))


def bool_test(e):
    """test == 0, test != 0, test == 1 of a C predicate -> (test, sense)"""
    for a, b in ((e[1], e[2]), (e[2], e[1])):
        if a[0] == 'call' and a[1].startswith('Pl_Range_Test') and b[0] == 'num' and e[0] in ('=', '==', '!=', '\\='):
            return a, (b[1] != 0) == (e[0] in ('=', '=='))
    return None


def elem(e):
    """the element of a set expression that corresponds to the current point"""
    if e[0] == 'dom':
        return ('v', e[1])
    if e[0] in ('+', '-', '*'):
        return (e[0], elem(e[1]), e[2])
    if e[0] == 'set' and len(e) == 2:
        return e[1]
    raise Undec('set %s' % show(e))


class Ctx:
    """translation of terms: names of the symbols, D0 (when guards were tested) or current domains"""
    def __init__(c, cstr, coef, nat):
        c.t = {v: t for t, v in cstr.params}
        c.coef, c.nat = coef, nat
        c.signed = [v for v, t in c.t.items() if t == 'int' and not coef and not nat]

    def val(c, v):
        if v not in c.t:
            raise Undec('unknown variable %s' % v)
        if c.t[v] == 'fdv':
            return padd(pv('m' + v), pv('a' + v))
        if c.coef:
            return padd(pv(v), pc(1))
        return pv(v)

    def poly(c, r, e, d0=False):
        k = e[0]
        if k == 'num':
            return pc(e[1])
        if k == 'v' or k == 'var' and c.t.get(e[1]) in ('int', 'fdv'):
            return c.val(e[1])
        if k in ('min', 'max', 'val'):
            if c.t.get(e[1]) != 'fdv':
                raise Undec('%s of %s' % (k, e[1]))
            v = c.val(e[1])
            if k == 'min':
                return psub(pv('m' + e[1]), pv('p' + e[1])) if d0 else pv('m' + e[1])
            if k == 'max':
                v = padd(v, pv('b' + e[1]))
                return padd(v, pv('q' + e[1])) if d0 else v
            return v
        if k in ('+', '-'):
            return padd(c.poly(r, e[1], d0), c.poly(r, e[2], d0), 1 if k == '+' else -1)
        if k == '*':
            return pmul(c.poly(r, e[1], d0), c.poly(r, e[2], d0))
        if k == 'neg':
            return psub({}, c.poly(r, e[1], d0))
        if k == 'call' and e[1] in ('P', 'Pl_Power') and len(e) == 4:
            return c.power(r, c.poly(r, e[2], d0), c.poly(r, e[3], d0))
        raise Undec('term %s' % show(e))

    def power(c, r, b, n):
        pw = getattr(r, 'pw', None)
        b, n = r.red(b), r.red(n)
        if pw is None:
            r.pw = (b, n)
            return pv('POW')
        b0, n0 = r.red(pw[0]), r.red(pw[1])
        if b == b0 and n == n0:
            return r.red(pv('POW'))
        if r.nonneg(psub(b, b0)) and r.nonneg(psub(n, n0)):
            return padd(r.red(pv('POW')), r.new('pu'))
        if r.nonneg(psub(b0, b)) and r.nonneg(psub(n0, n)):
            d = r.new('pd')
            return psub(r.red(pv('POW')), d)
        raise Undec('power')

    def assume(c, r, atoms, d0=False):
        for op, a, b in atoms:
            d = psub(c.poly(r, b, d0), c.poly(r, a, d0))
            if op == '=':
                r.eq(d)
            elif op == '<=':
                r.ge(d)
            elif op == '<':
                r.ge(psub(d, pc(1)))
            elif op == '>=':
                r.ge(psub({}, d))
            elif op == '>':
                r.ge(psub(psub({}, d), pc(1)))


def split_div(e):
    """e = (other terms, one division) or None"""
    if e[0] in ('/<', '/>'):
        return ('num', 0), e
    if e[0] == '+':
        for a, b in ((e[1], e[2]), (e[2], e[1])):
            s = split_div(a)
            if s:
                return ('+', s[0], b), s[1]
    if e[0] == '-':
        s = split_div(e[1])
        if s:
            return ('-', s[0], e[2]), s[1]
    return None


INV = {'Pl_Sqrt_Up': (-1, 'sqr'), 'Pl_Sqrt_Dn': (1, 'sqr'), 'Pl_Nth_Root_Up': (-1, 'base'), 'Pl_Nth_Root_Dn': (1, 'base'),
       'Pl_Find_Expon_Up': (-1, 'exp'), 'Pl_Find_Expon_Dn': (1, 'exp')}


def forward(c, r, e, w):
    """the value whose root/exponent is compared with w, and the bound given"""
    k = INV[e[1]][1]
    if k == 'sqr':
        return pmul(w, w), c.poly(r, e[2])
    if k == 'base':
        return c.power(r, w, c.poly(r, e[3])), c.poly(r, e[2])
    return c.power(r, c.poly(r, e[2]), w), c.poly(r, e[3])


def bound(c, r, e, t, up, pos=None):
    """does  e >= t  (up)  or  e <= t  (not up)  hold everywhere in region r?"""
    if e[0] == 'maxint':
        return up
    if e[0] == 'call' and e[1] == 'ite' and len(e) == 5:
        for cond, br in ((dnf(e[2]), e[3]), (dnf(e[2], False), e[4])):
            for conj in cond:
                q = r.copy()
                try:
                    c.assume(q, conj)
                    q.settle()
                except Contradiction:
                    continue
                if not bound(c, q, br, t, up, pos):
                    return False
        return True
    if e[0] == 'call' and e[1] in ('math_min', 'math_max') and len(e) == 4:
        rs = [bound(c, r, x, t, up, pos) for x in e[2:]]
        return all(rs) if (e[1] == 'math_min') == up else any(rs)
    if e[0] == 'call' and e[1] in INV:
        side, _ = INV[e[1]]
        if (side == 1) != up:
            raise Undec('%s as a %s bound' % (e[1], 'upper' if up else 'lower'))
        f, b = forward(c, r, e, t)
        return r.proves(psub(b, f) if up else psub(f, b))
    s = split_div(e)
    if s:
        w = psub(t, c.poly(r, s[0]))
        n, d = c.poly(r, s[1][1]), c.poly(r, s[1][2])
        if not r.proves(psub(d, pc(1))) and not (pos and pos(r, s[1][2])):
            raise Undec('sign of the divisor %s' % show(s[1][2]))
        flo = s[1][0] == '/<'
        if up:
            return r.proves(psub(n, pmul(d, w)) if flo else psub(psub(n, pmul(d, psub(w, pc(1)))), pc(1)))
        return r.proves(psub(padd(pmul(d, w), psub(d, pc(1))), n) if flo else psub(pmul(d, w), n))
    return r.proves(psub(c.poly(r, e), t) if up else psub(t, c.poly(r, e)))


def alts(c, r, e):
    """alternatives of a range expression: (pt num den) | (iv lo hi) | (not alts) | (inv ...)"""
    k = e[0]
    if k == '..':
        return [('iv', e[1], e[2])]
    if k == 'set':
        return [('pt', c.poly(r, x), pc(1)) for x in e[1:]]
    if k == 'dom':
        return [('pt', c.val(e[1]), pc(1))]
    if k == ':':
        return alts(c, r, e[1]) + alts(c, r, e[2])
    if k == '&':
        return [('and', alts(c, r, e[1]), alts(c, r, e[2]))]
    if k == 'compl':
        return [('not', alts(c, r, e[1]))]
    if k in ('++', '--', '**', '//'):
        out = []
        for x in alts(c, r, e[1]):
            for y in alts(c, r, e[2]):
                if x[0] != 'pt' or y[0] != 'pt':
                    raise Undec('set %s' % show(e))
                if k == '**':
                    out.append(('pt', pmul(x[1], y[1]), pmul(x[2], y[2])))
                elif k == '//':
                    out.append(('pt', pmul(x[1], y[2]), pmul(x[2], y[1])))
                else:
                    out.append(('pt', padd(pmul(x[1], y[2]), pmul(y[1], x[2]), 1 if k == '++' else -1), pmul(x[2], y[2])))
        return out
    if k in ('+', '-', '*', '/'):
        out = []
        t = c.poly(r, e[2])
        for x in alts(c, r, e[1]):
            if x[0] != 'pt':
                raise Undec('set %s' % show(e))
            n, d = x[1], x[2]
            out.append(('pt', padd(n, pmul(t, d), 1 if k == '+' else -1), d) if k in '+-' else
                       ('pt', pmul(n, t), d) if k == '*' else ('pt', n, pmul(d, t)))
        return out
    if k == 'call':
        f = e[1]
        el = [c.poly(r, elem(x) if fdfile.isrange(x) else x) for x in e[2:]]
        if f == 'Pl_Full_Var_Power_2':
            return [('pt', pmul(el[0], el[0]), pc(1))]
        if f == 'Pl_Full_Sqrt_Var':
            return [('inv', lambda v: pmul(v, v), el[0])]
        if f in ('Pl_Full_Coeff_Power_Var', 'Pl_Full_Var_Power_Coeff'):
            return [('pt', c.power(r, el[0], el[1]), pc(1))]
        if f == 'Pl_Full_Find_Expon':
            return [('inv', lambda v: c.power(r, el[0], v), el[1])]
        if f == 'Pl_Full_Nth_Root':
            return [('inv', lambda v: c.power(r, v, el[1]), el[0])]
    raise Undec('range %s' % show(e))


def inside(c, r, v, a, pos):
    if a[0] == 'pt':
        return r.zero(psub(pmul(v, a[2]), a[1]))
    if a[0] == 'inv':
        return r.zero(psub(a[1](v), a[2]))
    if a[0] == 'iv':
        return bound(c, r, a[1], v, False, pos) and bound(c, r, a[2], v, True, pos)
    if a[0] == 'and':
        return any(inside(c, r, v, x, pos) for x in a[1]) and any(inside(c, r, v, x, pos) for x in a[2])
    return all(outside(c, r, v, x, pos) for x in a[1])


def outside(c, r, v, a, pos):
    if a[0] in ('pt', 'inv'):
        d = psub(pmul(v, a[2]), a[1]) if a[0] == 'pt' else psub(a[1](v), a[2])
        return r.proves(psub(d, pc(1))) or r.proves(psub(psub({}, d), pc(1)))
    if a[0] == 'iv':
        for e, up in ((a[1], True), (a[2], False)):
            t = padd(v, pc(1 if up else -1))
            try:
                if not (e[0] == 'maxint') and bound(c, r, e, t, up, pos):
                    return True
            except Undec:
                pass
        return False
    if a[0] == 'and':
        return all(outside(c, r, v, x, pos) for x in a[1]) or all(outside(c, r, v, x, pos) for x in a[2])
    return any(inside(c, r, v, x, pos) for x in a[1])


# ---------------------------------------------------------------- numeric meaning (witnesses, truth tables)
def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


MAXI = 268435455


class NoVal(Exception):
    pass


class DivZero(NoVal):
    pass


def num(e, P):
    """value of a term at a point: P[v] = (min, value, max) or an integer"""
    k = e[0]
    if k == 'num':
        return e[1]
    if k == 'maxint':
        return MAXI
    if k == 'v' or k == 'var':
        x = P[e[1]]
        return x[1] if isinstance(x, tuple) else x
    if k in ('min', 'max', 'val'):
        x = P[e[1]]
        if not isinstance(x, tuple):
            raise NoVal
        if k == 'val' and x[0] != x[2]:
            raise NoVal
        return x[0] if k == 'min' else x[2]
    if k == 'neg':
        return -num(e[1], P)
    if k == 'lnot':
        return int(not num(e[1], P))
    if k == 'call':
        f = e[1]
        if f == 'ite':
            return num(e[3], P) if num(e[2], P) else num(e[4], P)
        if f in MACRO:
            return num(MACRO[f], dict(zip(MACRO_ARGS[f], [num(x, P) for x in e[2:]])))
        if f == 'Pl_Range_Test_Value':
            x = P[e[2][1]]
            return int(x[0] <= num(e[3], P) <= x[2])
        if f == 'Pl_Range_Test_Null_Inter':
            return int(not (setof(e[2], P) & setof(e[3], P)))
        a = [num(x, P) for x in e[2:]]
        if f == 'not':
            return 1 - a[0]
        if f in BITS:
            return BITS[f](*a)
        if f == 'math_min':
            return min(a)
        if f == 'math_max':
            return max(a)
        if f in ('P', 'Pl_Power'):
            return a[0] ** a[1]
        if f in ('Pl_Sqrt_Up', 'Pl_Nth_Root_Up', 'Pl_Sqrt_Dn', 'Pl_Nth_Root_Dn'):
            n = a[1] if len(a) > 1 else 2
            x = 0
            while x ** n < a[0]:
                x += 1
            return x if f.endswith('Up') or x ** n == a[0] else x - 1
        if f in ('Pl_Find_Expon_Up', 'Pl_Find_Expon_Dn'):
            if a[0] < 2:
                raise NoVal
            x = 0
            while a[0] ** x < a[1]:
                x += 1
            return x if f.endswith('Up') or a[0] ** x == a[1] else x - 1
        raise NoVal
    a, b = num(e[1], P), num(e[2], P)
    if k in ('/<', '/>', 'mod', '/', '%'):
        if b == 0:
            raise DivZero(show(e[2]))
        if k == '/>':
            a += b - 1
        q = cdiv(a, b)
        return a - q * b if k in ('mod', '%') else q
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&&': lambda: int(bool(a and b)), '||': lambda: int(bool(a or b)),
            '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
            '=': lambda: int(a == b), '==': lambda: int(a == b), '!=': lambda: int(a != b), '\\=': lambda: int(a != b), '<': lambda: int(a < b),
            '<=': lambda: int(a <= b), '>': lambda: int(a > b), '>=': lambda: int(a >= b)}[k]()


BITS = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
        'eqv': lambda x, y: 1 - (x ^ y), 'impl': lambda x, y: (1 - x) | y}
MACRO, MACRO_ARGS = {}, {}


def setof(e, P, lim=200):
    """the finite set denoted by a range expression (restricted to 0..lim)"""
    k = e[0]
    if k == 'dom':
        x = P[e[1]]
        return set(range(x[0], x[2] + 1))
    if k == 'set':
        return {num(x, P) for x in e[1:]}
    if k == '..':
        return set(range(max(num(e[1], P), -lim), min(num(e[2], P), lim) + 1))
    if k == ':':
        return setof(e[1], P) | setof(e[2], P)
    if k == '&':
        return setof(e[1], P) & setof(e[2], P)
    if k == 'compl':
        return set(range(0, lim + 1)) - setof(e[1], P)
    if k in ('++', '--', '**'):
        f = {'++': lambda x, y: x + y, '--': lambda x, y: x - y, '**': lambda x, y: x * y}[k]
        return {f(x, y) for x in setof(e[1], P) for y in setof(e[2], P)}
    if k == '//':
        return {cdiv(x, y) for x in setof(e[1], P) for y in setof(e[2], P) if y and x % y == 0}
    if k in ('+', '-', '*'):
        t = num(e[2], P)
        return {x + t if k == '+' else x - t if k == '-' else x * t for x in setof(e[1], P)}
    if k == '/':
        t = num(e[2], P)
        return {x // t for x in setof(e[1], P) if t and x % t == 0}
    if k == 'call':
        f = e[1]
        a = [setof(x, P) if fdfile.isrange(x) else num(x, P) for x in e[2:]]
        if f == 'Pl_Full_Var_Power_2':
            return {x * x for x in a[0]}
        if f == 'Pl_Full_Sqrt_Var':
            return {x for x in range(lim) if x * x in a[0]}
        if f == 'Pl_Full_Coeff_Power_Var':
            return {a[0] ** x for x in a[1]}
        if f == 'Pl_Full_Var_Power_Coeff':
            return {x ** a[1] for x in a[0]}
        if f == 'Pl_Full_Find_Expon' and a[0] >= 2:
            return {x for x in range(20) if a[0] ** x in a[1]}
        if f == 'Pl_Full_Nth_Root':
            return {x for x in range(lim) if x ** a[1] in a[0]}
    raise NoVal


def member(rule, P, v):
    if rule.range[0] == '..':
        return num(rule.range[1], P) <= v <= num(rule.range[2], P)
    return v in setof(rule.range, P)


def witness(cs, rule, rel, guard, coef, nat, want=4000):
    """a domain for each variable containing a solution that the rule removes"""
    rnd = random.Random(7)
    fd = [v for t, v in cs.params if t == 'fdv']
    ints = [v for t, v in cs.params if t == 'int']
    got = 0
    pts = []
    K = 7 if any(e[0] == 'call' and e[1] in ('P', 'Pl_Power') for e in fdfile.walk(rel)) or len(fd) < 3 else 5
    for vs in itertools.product(range(K + 1), repeat=len(fd)):
        for ps in itertools.product(range(1, 4) if coef else range(0, 8) if nat else range(-3, 7), repeat=len(ints)):
            P = dict(zip(fd, vs))
            P.update(zip(ints, ps))
            try:
                if num(rel, P):
                    pts.append(P)
            except NoVal:
                pass
            if len(pts) > 40000:
                break
    if not pts:
        return None
    for _ in range(want):
        P = rnd.choice(pts)
        D = {}
        D0 = {}
        for v in fd:
            lo = rnd.choice([P[v], rnd.randint(0, P[v])])
            hi = rnd.choice([P[v], P[v] + rnd.randint(0, 3)])
            D[v] = (lo, P[v], hi)
            D0[v] = D[v] if rnd.random() < .6 else (rnd.randint(0, lo), P[v], hi + rnd.randint(0, 2))
        for v in ints:
            D[v] = D0[v] = P[v]
        try:
            if guard is not None and not num(guard, D0):
                continue
            if not member(rule, D, P[rule.var]):
                return D
        except NoVal:
            continue
        except KeyError:
            return None
    return None


def ground_witness(cs, active, rel, guards, coef, nat):
    """a known non-solution that no active rule rejects"""
    fd = [v for t, v in cs.params if t == 'fdv']
    ints = [v for t, v in cs.params if t == 'int']
    for ps in itertools.product(range(1, 4) if coef else range(0, 8) if nat else range(-2, 5), repeat=len(ints)):
        for vs in itertools.product(range(5), repeat=len(fd)):
            P = {v: (x, x, x) for v, x in zip(fd, vs)}
            P.update(zip(ints, ps))
            if 'B' in P and cs.name.startswith('pl_truth') and P['B'][0] > 1:
                continue
            try:
                if num(rel, P):
                    continue
                if any(bool(num(g, P)) != want for g, want in guards):
                    continue
                ok = False
                for r in active:
                    try:
                        if not member(r, P, P[r.var][0]):
                            ok = True
                            break
                    except NoVal:
                        ok = None
                if ok is False:
                    return P
            except NoVal:
                continue
    return None


def zero_divisor(cs, rule, rel, guard, earlier, coef, nat):
    """domains, consistent with the rules started before, for which a divisor of the rule is zero"""
    fd = [v for t, v in cs.params if t == 'fdv']
    ints = [v for t, v in cs.params if t == 'int']
    rnd = random.Random(5)
    for _ in range(6000):
        P = {v: rnd.randint(0, 5) for v in fd}
        P.update({v: rnd.randint(1 if coef else 0, 5) for v in ints})
        if not num(rel, P):
            continue
        D = {v: ((rnd.randint(0, P[v]), P[v], P[v] + rnd.randint(0, 2)) if v in fd else P[v]) for v in P}
        for v in fd:
            if rnd.random() < .4:
                D[v] = (0,) + D[v][1:]
        try:
            if guard is not None and not num(guard, D):
                continue
            if any(q.range[0] == '..' and not num(q.range[1], D) <= D[q.var][0] for q in earlier):
                continue
        except NoVal:
            continue
        try:
            member(rule, D, P[rule.var])
        except DivZero as x:
            return D, str(x)
        except NoVal:
            continue
    return None


def pt(P):
    return ', '.join('%s in %d..%d (solution: %d)' % (v, x[0], x[2], x[1]) if isinstance(x, tuple) else '%s = %d' % (v, x) for v, x in P.items())


def gpt(P):
    return ', '.join('%s = %d' % (v, x[0] if isinstance(x, tuple) else x) for v, x in P.items())


# ---------------------------------------------------------------- decision
ORDERS = [0, 1, 2, 3, 5]


def relation(cs):
    """(relation AST, coef, nat) of a constraint, or None"""
    n = re.sub(r'_F$', '', cs.name)
    truth = n.startswith('pl_truth_')
    base = n.replace('pl_truth_', 'pl_', 1)
    if base not in REL:
        return None
    e = parse(REL[base])
    if truth:
        b1, b0 = ('=', ('v', 'B'), ('num', 1)), ('=', ('v', 'B'), ('num', 0))
        e = ('||', ('&&', b1, e), ('&&', b0, ('lnot', e)))
    return e, base in COEF, base in NAT


def regions(c, cs, conjs, guard=None, ground=False, val=(), order=0):
    """the consistent regions of a list of conjunctions, with the guard assumed on larger domains"""
    gs = dnf(guard) if guard is not None else [[]]
    for conj in conjs:
        for g in gs:
            r = Region(c.signed, order)
            try:
                for v in val:
                    r.eq(pv('a' + v))
                    r.eq(pv('b' + v))
                c.assume(r, conj)
                if g:
                    for v, t in c.t.items():
                        if t == 'fdv':
                            r.fact(r.red(psub(pv('m' + v), pv('p' + v))))
                    c.assume(r, g, True)
                r.settle()
            except Contradiction:
                continue
            yield conj, g, r


def sound(cs, c, rule, rel, guard, earlier):
    """True, or the reason why the certificate was not found"""
    val = {e[1] for e in fdfile.walk(rule.range) if e[0] == 'val'}

    def pos(r, d):
        # the divisor is positive because an earlier rule bounds its variable
        if d[0] not in ('min', 'max'):
            return False
        for q in earlier:
            if q.var == d[1] and q.range[0] == '..':
                try:
                    if bound(c, r, q.range[1], pc(1), True):
                        return True
                except Undec:
                    pass
        return False
    why = None
    for o in ORDERS:
        good = True
        n = 0
        for conj, g, r in regions(c, cs, dnf(rel), guard, val=sorted(val), order=o):
            n += 1
            try:
                v = c.val(rule.var)
                if not any(inside(c, r, v, a, pos) for a in alts(c, r, rule.range)):
                    good, why = False, 'no certificate in the case ' + ' && '.join(map(show, conj))
            except Undec as x:
                good, why = False, str(x)
            except Contradiction:
                pass
            if not good:
                break
        if good:
            return True, n
    return why, 0


def complete(cs, c, active, rel, guards):
    """every ground non-solution satisfying the guards is rejected"""
    fd = [v for t, v in cs.params if t == 'fdv']
    n, why = 0, None
    neg = dnf(rel, False)
    gd = [[]]
    for g, want in guards:
        gd = [x + y for x in gd for y in dnf(g, want)]
    for conj in neg:
        for g in gd:
            done = False
            for o in ORDERS:
                r = Region(c.signed, o)
                try:
                    for v in fd:
                        r.eq(pv('a' + v))
                        r.eq(pv('b' + v))
                    if cs.name.startswith('pl_truth'):
                        r.ge(psub(pc(1), c.val('B')))
                    c.assume(r, conj)
                    c.assume(r, g)
                    r.settle()
                except Contradiction:
                    done = True
                    break
                for rule in active:
                    try:
                        if all(outside(c, r, c.val(rule.var), a, None) for a in alts(c, r, rule.range)):
                            done = True
                            break
                    except Undec:
                        pass
                    except Contradiction:
                        done = True
                        break
                if done:
                    break
            n += 1
            if not done:
                return 'no rule rejects ' + ' && '.join(map(show, conj)), n
    return True, n


def bool_cstr(rep, cs, rel, key):
    """truth tables over the domains {0}, {1}, {0,1}"""
    fd = [v for t, v in cs.params if t == 'fdv']
    n = 0
    for rule in cs.rules:
        bad = None
        for vs in itertools.product((0, 1), repeat=len(fd)):
            if not rel(*vs):
                continue
            for wide in itertools.product((0, 1), repeat=len(fd)):
                P = {v: ((0, x, 1) if w else (x, x, x)) for v, x, w in zip(fd, vs, wide)}
                n += 1
                try:
                    if not member(rule, P, P[rule.var][1]):
                        bad = P
                except NoVal:
                    pass
        if bad:
            rep.violation('%s:%s' % (cs.name, rule.var), '%s:%d: %s: the rule "%s in %s" removes a solution: %s' %
                          (cs.file, rule.line, cs.name, rule.var, show(rule.range), pt(bad)), [])
        rep.count(rules=1)
    for vs in itertools.product((0, 1), repeat=len(fd)):
        if rel(*vs):
            continue
        P = {v: (x, x, x) for v, x in zip(fd, vs)}
        n += 1
        try:
            if all(member(r, P, P[r.var][0]) for r in cs.rules):
                rep.violation('%s:complete' % cs.name, '%s:%d: %s accepts a non-solution: %s' % (cs.file, cs.line, cs.name, gpt(P)), [])
        except NoVal:
            rep.undecided.append('%s: value of a rule at %s' % (cs.name, gpt(P)))
    rep.count(truth_table_rows=n)


def macros(cblocks):
    """function-like macros of the C blocks of a .fd file that the rules use"""
    for b in cblocks:
        for m in re.finditer(r'^#define\s+(\w+)\(([^)]*)\)[ \t]+(.*)$', b, re.M):
            if m.group(1) == 'ite':
                continue
            try:
                p = CParser(m.group(3), 'macro')
                e = p.expr()
                if p.pk() == '<eof>':
                    MACRO[m.group(1)] = e
                    MACRO_ARGS[m.group(1)] = [x.strip() for x in m.group(2).split(',')]
            except fdfile.FdSyntax:
                MACRO[m.group(1)] = ('call', '?')
                MACRO_ARGS[m.group(1)] = []


def rename(cs):
    """give the parameters the names used in the relation (they are known by position)"""
    canon = PARAMS.get(cs.name)
    if not canon or len(canon) != len(cs.params):
        return
    m = dict(zip([v for t, v in cs.params], canon))
    if all(a == b for a, b in m.items()):
        return

    def ren(e):
        if not isinstance(e, tuple):
            return e
        if e[0] in ('var', 'v', 'min', 'max', 'val', 'dom'):
            return (e[0], m.get(e[1], e[1]))
        return e[:1] + tuple(ren(x) for x in e[1:])
    cs.params = [(t, m[v]) for t, v in cs.params]
    for k in cs.cases:
        k.cond = ren(k.cond)
    for r in cs.rules + [r for k in cs.cases for r in k.rules]:
        r.var, r.range, r.call = m.get(r.var, r.var), ren(r.range), ren(r.call)


class CParser(fdfile.Parser):
    LEVELS = [['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['+', '-'], ['*', '/', '%']]

    def __init__(p, text, file):
        p.file, p.cblocks, p.i, p.t = file, [], 0, []
        for m in re.finditer(r'\s+|(?P<num>\d+)|(?P<id>\w+)|(?P<op>\|\||&&|==|!=|<=|>=|[-+*/%&|^~()<>!,?:])', text):
            if m.lastgroup:
                p.t.append((m.group(0), m.lastgroup, 0))
        p.t.append(('<eof>', 'eof', 0))

    def prim(p):
        return p.prim0()

    def expr(p, lv=0):
        e = fdfile.Parser.expr(p, lv)
        if lv == 0 and p.pk() == '?':
            p.nx()
            a = p.expr()
            p.nx(':')
            e = ('call', 'ite', e, a, p.expr())
        return e


def engine_macros(rep):
    """DivDn, DivUp (fd_to_c.h), math_min, math_max (fd_inst.h) and ite compute what the analysis assumes for non-negative operands"""
    want = {'DivDn': lambda x, y: x // y, 'DivUp': lambda x, y: -(-x // y), 'math_min': min, 'math_max': max,
            'ite': lambda i, t, e: t if i else e}
    src = {'DivDn': 'src/EngineFD/fd_to_c.h', 'DivUp': 'src/EngineFD/fd_to_c.h', 'math_min': 'src/EngineFD/fd_inst.h',
           'math_max': 'src/EngineFD/fd_inst.h', 'ite': 'src/BipsFD/fd_math_fd.fd'}
    for name, f in src.items():
        m = re.search(r'^[ \t]*#[ \t]*define[ \t]+%s\(([^)]*)\)((?:.*\\\n)*.*)$' % name, open(prep.REPO + '/' + f, encoding='latin-1').read(), re.M)
        if not m:
            rep.undecided.append('macro %s not found' % name)
            continue
        args = [x.strip() for x in m.group(1).split(',')]
        try:
            p = CParser(m.group(2).replace('\\\n', ' '), f)
            e = p.expr()
            if p.pk() != '<eof>':
                raise fdfile.FdSyntax(p.pk())
            n = 0
            for vs in itertools.product(range(1 if name == 'ite' else 0, 13), repeat=len(args)):
                if name.startswith('Div') and vs[1] == 0:
                    continue
                for x in ([vs] if name != 'ite' else [(0,) + vs[1:], vs]):
                    n += 1
                    if num(e, dict(zip(args, x))) != want[name](*x):
                        raise AssertionError('%s(%s)' % (name, ', '.join(map(str, x))))
            rep.count(macros=1)
        except AssertionError as x:
            rep.violation('macro:%s' % name, '%s: the macro %s used by the constraints gives a wrong value for %s' % (f, name, x), [])
        except (NoVal, KeyError, TypeError, fdfile.FdSyntax, IndexError):
            rep.undecided.append('macro %s' % name)


def check_macros(rep, files):
    for name, want in (('not', lambda x: 1 - x), ('and', lambda x, y: x & y), ('or', lambda x, y: x | y), ('xor', lambda x, y: x ^ y),
                       ('eqv', lambda x, y: int(x == y)), ('impl', lambda x, y: int(x <= y))):
        if name not in MACRO:
            continue
        rep.count(macros=1)
        n = len(MACRO_ARGS[name])
        try:
            for vs in itertools.product((0, 1), repeat=n):
                if num(MACRO[name], dict(zip(MACRO_ARGS[name], vs))) != want(*vs):
                    rep.violation('macro:%s' % name, 'src/BipsFD/fd_bool_fd.fd: the macro %s(%s) gives a wrong truth value' % (name, ', '.join(map(str, vs))), [])
                    break
        except (NoVal, KeyError, TypeError):
            rep.undecided.append('macro %s' % name)


def one(rep, cs):
    allr = cs.rules + [r for k in cs.cases for r in k.rules]
    names = {r.name for r in cs.rules if r.name}
    for k in cs.cases:
        for s in k.stops:
            if s not in names:
                rep.violation('%s:stop' % cs.name, '%s:%d: %s stops %s, which is not one of its rules' % (cs.file, k.line, cs.name, s), [])
    if any(r.range is None for r in allr):
        rep.undecided.append('%s: rule that is a C function' % cs.name)
        return
    for r in allr:
        if cs.type(r.var) != 'fdv':
            rep.violation('%s:var' % cs.name, '%s:%d: %s restricts %s, which is not an FD variable' % (cs.file, r.line, cs.name, r.var), [])
    if cs.name in SAME:
        rep.count(rules=1)
        if [r.range for r in allr] != [SAME[cs.name]]:
            rep.undecided.append('%s: %s' % (cs.name, show(allr[0].range)))
        return
    if cs.name in BOOL:
        if cs.cases:
            rep.undecided.append('%s: switch on 0/1 variables' % cs.name)
            return
        bool_cstr(rep, cs, BOOL[cs.name], cs.name)
        return
    rl = relation(cs)
    if rl is None:
        rep.undecided.append('%s: no relation known' % cs.name)
        return
    rel, coef, nat = rl
    c = Ctx(cs, coef, nat)
    sets = [(r, None, cs.rules[:i]) for i, r in enumerate(cs.rules)] + \
           [(r, k.cond, cs.rules + k.rules[:i]) for k in cs.cases for i, r in enumerate(k.rules)]
    for rule, guard, earlier in sets:
        rep.count(rules=1)
        try:
            ok, n = sound(cs, c, rule, rel, guard, earlier)
        except Undec as x:
            ok, n = str(x), 0
        unknown = {e[1] for e in fdfile.walk(rule.range) if e[0] in ('var', 'min', 'max', 'val', 'dom')} - set(c.t)
        if unknown:
            rep.undecided.append('%s:%d: %s: unknown variable %s' % (cs.file, rule.line, cs.name, ', '.join(sorted(unknown))))
            continue
        where = '%s:%d' % (cs.file, rule.line)
        if ok is True:
            rep.count(certificates=n)
            rep.sample('%s: %s: %s in %s keeps every solution%s' % (where, cs.name, rule.var, show(rule.range), ' when ' + show(guard) if guard else ''))
            continue
        w = witness(cs, rule, rel, guard, coef, nat)
        if w:
            rep.violation('%s:%s' % (cs.name, rule.var), '%s: %s: the rule "%s in %s"%s removes a solution of %s: %s' %
                          (where, cs.name, rule.var, show(rule.range), ' (case %s)' % show(guard) if guard else '', show(rel), pt(w)), [str(ok)])
            continue
        z = zero_divisor(cs, rule, rel, guard, earlier, coef, nat)
        if z:
            rep.violation('%s:%s:zero' % (cs.name, rule.var), '%s: %s: the rule "%s in %s" divides by %s, which is zero for %s' %
                          (where, cs.name, rule.var, show(rule.range), z[1], pt(z[0])), [])
        else:
            rep.undecided.append('%s: %s: %s in %s: %s' % (where, cs.name, rule.var, show(rule.range), ok))
    # completeness: the switch has not fired, or one of its cases has
    states = [(cs.rules, [(k.cond, False) for k in cs.cases], 'no case')]
    for k in cs.cases:
        states.append(([r for r in cs.rules if not (r.name and r.name in k.stops)] + k.rules, [(k.cond, True)], 'case ' + show(k.cond)))
    for active, guards, what in states:
        rep.count(completeness_states=1)
        try:
            ok, n = complete(cs, c, active, rel, guards)
        except Undec as x:
            ok, n = str(x), 0
        if ok is True:
            rep.count(certificates=n)
            continue
        try:
            w = ground_witness(cs, active, rel, guards, coef, nat)
        except KeyError:
            w = None
        if w:
            rep.violation('%s:complete' % cs.name, '%s:%d: %s (%s) accepts a non-solution of %s: %s' %
                          (cs.file, cs.line, cs.name, what, show(rel), gpt(w)), [str(ok)])
        else:
            rep.undecided.append('%s: completeness (%s): %s' % (cs.name, what, ok))


def run(rep):
    MACRO.clear()
    MACRO_ARGS.clear()
    seen = set()
    cstrs = []
    for f in FILES:
        try:
            cs, cb = fdfile.read(prep.REPO + '/' + f, f)
        except fdfile.FdSyntax as x:
            rep.undecided.append(str(x))
            continue
        macros(cb)
        cstrs += cs
    check_macros(rep, FILES)
    engine_macros(rep)
    for cs in cstrs:
        seen.add(cs.name)
        rep.count(constraints=1)
        rename(cs)
        try:
            one(rep, cs)
        except KeyError as x:
            rep.undecided.append('%s: unknown variable %s' % (cs.name, x))
    from . import c10
    try:
        c10.constraints(rep)
    except prep.AnalysisBroken as x:
        rep.undecided.append(str(x))
    refcheck.units(rep, ['BipsFD/math_supp.c', 'BipsFD/fd_bool_c.c', 'BipsFD/fd_math_c.c'])
    plref.check(rep, ['BipsFD/fd_math.pl', 'BipsFD/fd_bool.pl'])
    want = set(BOOL) | set(SAME) | {n for n in REL if n not in ('pl_x_eq_c', 'pl_x_in_l_u')}
    rep.cov['constraints of the specification that are absent'] = sorted(want - seen)
    rep.need(rep.cov.get('constraints', 0), 60, 'constraints')
    rep.need(rep.cov.get('certificates', 0), 250, 'certificates')
    return rep

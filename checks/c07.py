"""C07: a change of the domain of a constraint variable re-executes the constraints that depend on it.

Decided on the IR of the FD engine (small helpers expanded), by a forward walk over the acyclic paths of each function:
  W  a path that changes min / max / the element count / the value of an existing constraint variable calls the
     propagation routine for that variable, afterwards, with the chains of what it changed
  D  a path that gives a variable its value also dates it with the current date
  Q  the propagation routine selects the chains that have constraints, and queues a variable exactly when it is not
     queued, accumulating the chains otherwise
  A  a constraint is recorded in the chain whose bit it sets in the variable's mask
  E  the execution loop runs every constraint of every selected chain unless it was stopped or dated out, fails as soon
     as one fails (with an empty queue), and ends only when the last queued variable has no chain left
  P  a domain is restricted only between opening and closing an addition (or by code the engine runs in between), and
     the addition is always closed and its outcome used
  S  a field of a constraint variable is written with the width of the field
"""
import os
import re

from gpl import flow, inline, ir, prep, vn
from . import c05, c06

RULE = ('Each path of a function of the FD engine that changes a domain (bounds, number of elements, value) of an existing '
        'constraint variable must afterwards pass that variable to the propagation routine with the chain bits of what '
        'changed; the propagation routine, the dependency chains, the queue and the execution loop are checked against '
        'their protocol; restrictions only happen inside an opened addition, whose outcome is never dropped; stores to a '
        'variable have the width of the field.')

FIELDS = ['FD_Tag_Value', 'FD_INT_Date', 'Queue_Propag_Mask', 'Queue_Next_Fdv_Adr', 'Range_Stamp', 'Nb_Elem', 'Extra_Cstr',
          'Min', 'Max', 'Vec', 'Chains_Stamp', 'Nb_Cstr', 'Chains_Mask', 'Chain_Min', 'Chain_Max', 'Chain_Min_Max', 'Chain_Dom',
          'Chain_Val']
CFIELDS = ['AF_Pointer', 'Optim_Pointer', 'Cstr_Address']
RFIELDS = ['CF_Pointer', 'Next_Chain']
KINDS = ['MIN', 'MAX', 'MIN_MAX', 'DOM', 'VAL']


def probe(rep):
    """offsets, widths, chain numbers and masks, from the repository's headers"""
    src = '#include "engine_pl.h"\n#include "engine_fd.h"\n'
    for n in FIELDS + CFIELDS + RFIELDS:
        src += 'void *off_%s(WamWord *p) { return (void *) &%s(p); }\nlong size_%s(WamWord *p) { return sizeof(%s(p)); }\n' % (n, n, n, n)
    for k in KINDS:
        src += 'long nb_%s(void) { return CHAIN_NB_%s; }\nlong mask_%s(void) { return MASK_%s; }\n' % (k, k, k, k)
    for k in ('MASK_TO_KEEP_IN_QUEUE', 'CHAIN_RECORD_FRAME_SIZE', 'CONSTRAINT_FRAME_SIZE', 'FD_VARIABLE_FRAME_SIZE'):
        src += 'long k_%s(void) { return %s; }\n' % (k, k)
    src += 'long tag_int(void) { return INT; }\nlong tag_nb(void) { return Tag_Mask_Of((WamWord) -1); }\n'
    p = os.path.join(prep.WORK, 'probe-c07.%d.c' % os.getpid())
    with open(p, 'w') as f:
        f.write(src)
    try:
        prog = ir.Program([('EngineFD', p)])
    finally:
        os.unlink(p)
    K = {}
    for f in prog.allfns():
        e = vn.Eval(prog, f)
        r = [s.ret for s in e.paths() if s.end == 'ret']
        if len(r) != 1:
            continue
        v = r[0]
        if f.name.startswith('off_'):
            if v[1] == ((('arg', 0), 1),):
                K[f.name] = v[0]
        elif not v[1]:
            K[f.name] = v[0]
        else:
            x = fold(v)
            if x is not None:
                K[f.name] = x
    need = ['off_' + n for n in FIELDS + CFIELDS + RFIELDS] + ['size_' + n for n in FIELDS] + \
        [a + k for a in ('nb_', 'mask_') for k in KINDS] + ['k_MASK_TO_KEEP_IN_QUEUE', 'tag_int']
    miss = [n for n in need if n not in K]
    if miss:
        raise prep.AnalysisBroken('constants of the FD engine not found: ' + ', '.join(miss))
    return K


M64 = (1 << 64) - 1


def fold(v):
    """constant value of a vn value, or None"""
    if not isinstance(v, tuple) or len(v) != 2 or not isinstance(v[1], tuple):
        return None
    n = v[0]
    for a, c in v[1]:
        x = folda(a)
        if x is None:
            return None
        n += c * x
    return n


def folda(a):
    op = a[0]
    if op in ('or', 'and', 'xor', 'shl', 'lshr', 'ashr', 'mul') and len(a) == 3:
        x, y = fold(a[1]), fold(a[2])
        if op == 'and' and (x == 0 or y == 0):
            return 0
        if x is None or y is None:
            return None
        return {'or': lambda: x | y, 'and': lambda: x & y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
                'lshr': lambda: (x & M64) >> y, 'ashr': lambda: x >> y, 'mul': lambda: x * y}[op]()
    if op == 'trunc':
        return fold(a[2])
    if op == 'icmp':
        x, y = fold(a[2]), fold(a[3])
        if x is None or y is None:
            if a[2] == a[3]:
                return 1 if a[1] in ('eq', 'sle', 'sge', 'ule', 'uge') else 0
            return None
        if a[1][0] == 'u' and a[1] != 'une':
            x, y = x & M64, y & M64
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[a[1] if a[1] in ('eq', 'ne') else a[1][1:]])
    return None


def truth(fact):
    """(vn condition, outcome) -> (cond, bool) with comparisons against zero of comparisons unwrapped"""
    c, v = fact
    if v not in (True, False):
        return c, v
    while True:
        if len(c[1]) == 1 and c[0] == 0 and c[1][0][1] == 1:
            a = c[1][0][0]
            if a[0] == 'icmp' and a[1] in ('eq', 'ne') and fold(a[3]) == 0 and len(a[2][1]) == 1 and a[2][0] == 0 \
                    and a[2][1][0][0][0] in ('icmp', 'fcmp', 'trunc', 'and', 'or', 'xor'):
                if a[2][1][0][0][0] in ('icmp', 'fcmp', 'trunc'):
                    v = v if a[1] == 'ne' else not v
                    c = a[2]
                    continue
            if a[0] == 'xor' and fold(a[2]) in (1, -1):
                v = not v
                c = a[1]
                continue
            if a[0] == 'trunc' and a[1] == 'i1':
                c = a[2]
                continue
        return c, v


def feasible(s):
    eq = {}
    for f in s.facts:
        if f is None or f[1] not in (True, False):
            continue
        c, v = truth(f)
        k = fold(c)
        if k is not None and bool(k) != v:
            return False
        if c in eq and eq[c] != v:
            return False
        eq[c] = v
    return True


def cmps(s):
    """facts of a path: [(pred, a, b)]"""
    neg = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
    r = []
    for f in s.facts:
        if f is None:
            continue
        c, v = f
        if v not in (True, False):
            if v != 'default':
                r.append(('eq', c, vn.const(v)))
            continue
        c, v = truth(f)
        if len(c[1]) == 1 and c[1][0][0][0] == 'icmp' and c[0] == 0:
            a = c[1][0][0]
            p = a[1] if v else neg.get(a[1])
            if p:
                r.append((p, a[2], a[3]))
        else:
            r.append(('ne' if v else 'eq', c, vn.const(0)))
    return r


def same(v):
    """a value with load epochs and truncations dropped"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 0 and isinstance(v[1], tuple) and len(v[1]) == 1 and isinstance(v[1][0], tuple) and len(v[1][0]) == 2 \
                and v[1][0][1] == 1 and isinstance(v[1][0][0], tuple) and v[1][0][0][0] == 'trunc' and len(v[1][0][0]) == 3:
            return same(v[1][0][0][2])
        if v and v[0] == 'ld':
            return ('ld', same(v[1]))
        return tuple(same(x) for x in v)
    return v


def ld(base, o):
    return (0, ((('ld', (base[0] + o, base[1]), 0), 1),))



def fpof(prog):
    fns = [f for f in prog.allfns() if re.search(r'src/(EngineFD|BipsFD)/', f.unit.rel)]
    return fns, c06.fdvparams(prog, fns)


def gep(D, o):
    off = 0
    while isinstance(o, int) and o in D and D[o][1][0] in ('getelementptr', 'bitcast'):
        i = D[o][1]
        if i[0] == 'getelementptr':
            if i[6]:
                return o, off
            off += i[5]
            o = i[4]
        else:
            o = i[4][0]
    return o, off


def norm(v):
    """commutative operands sorted, load epochs and truncations dropped"""
    v = same(v)

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] in ('and', 'or', 'xor') and len(x) == 3:
                return (x[0],) + tuple(sorted((go(y) for y in x[1:]), key=repr))
            y = tuple(go(z) for z in x)
            if len(y) == 2 and y[0] == 0 and isinstance(y[1], tuple) and len(y[1]) == 1 and y[1][0][1:] == (1,) and y[1][0][0][0] == 'icmp' and False:
                return y
            return y
        return x
    return go(v)


def at(v):
    """the single atom of a value, or None"""
    return v[1][0][0] if v is not None and v[0] == 0 and len(v[1]) == 1 and v[1][0][1] == 1 else None


class Domain:
    def __init__(self, rep, prog, K):
        self.rep, self.prog, self.K = rep, prog, K
        self.O = {n: K['off_' + n] for n in FIELDS}
        self.mask = {k: K['mask_' + k] for k in KINDS}
        self.fns, self.fp = fpof(prog)
        self.date = self.tp = self.dummy = None
        self.rsum = {}

    # ---- anchors
    def find(self):
        O = self.O
        self.prop = {}
        for f in self.fns:
            if 'EngineFD' not in f.unit.rel or len(f.args) != 2 or 0 not in self.fp.get(f.name, ()) or f.args[1] == 'p':
                continue
            for b in f.blocks:
                for ins in b:
                    if ins[0] == 'store' and gep(f.defs, ins[5]) == (0, O['Queue_Propag_Mask']):
                        self.prop[f.name] = f
        if not self.prop:
            raise prep.AnalysisBroken('the propagation routine of the FD engine was not found')
        op = self.prog.need('Pl_Fd_Before_Add_Cstr')
        st = {}
        for s in vn.Eval(self.prog, inline.expand(self.prog, op)).paths():
            for a, v, ins in s.stores:
                g = at(a)
                if g and g[0] == 'g':
                    if at(v) and at(v)[0] == 'g':
                        self.tp, self.dummy = g[1], at(v)[1]
                    elif len(v[1]) == 1 and v[0] >= 1:
                        self.date = g[1]
        if not (self.tp and self.date):
            raise prep.AnalysisBroken('queue and date of the FD engine were not found')

    # ---- effect of a function of the range package on a range it is given
    def rangesum(self, name, i):
        """[(facts, {field: value})] over the paths of name, fields of the range given as parameter i; None: untouched"""
        k = (name, i)
        if k in self.rsum:
            return self.rsum[k]
        self.rsum[k] = None
        f = self.prog.fn(name)
        if f is None or 'EngineFD/' not in f.unit.rel or i >= len(f.args) or f.args[i] != 'p':
            return None
        r0 = self.O['Extra_Cstr']
        rel = {self.O[n] - r0: n for n in ('Extra_Cstr', 'Min', 'Max')}
        try:
            ps = vn.Eval(self.prog, f).paths(limit=600)
        except vn.Limit:
            ps = None
        if ps is None:
            self.rsum[k] = [([], {'Min': None, 'Max': None})]
            return self.rsum[k]
        out, any_ = [], False
        for s in ps:
            d = {}
            for a, v, ins in s.stores:
                if a[1] == ((('arg', i), 1),) and a[0] in rel:
                    d[rel[a[0]]] = v
            for c, args, ins in s.calls:
                for j, a in enumerate(args):
                    if a == (0, ((('arg', i), 1),)):
                        sub = self.rangesum(c, j) if c else None
                        if sub:
                            d.update({x: None for _, e in sub for x in e})
            any_ = any_ or bool(d)
            out.append((s, d))
        self.rsum[k] = out if any_ else None
        return self.rsum[k]

    # ---- W and D
    def changes(self, f, s):
        """[(position, base, field, value, ins, extra)] on path s"""
        O = self.O
        rev = {o: n for n, o in O.items()}
        isfd = lambda a: a is not None and a[0] == 'arg' and a[1] in self.fp.get(f.name, ())
        out = []
        for k, e in enumerate(s.order):
            if e[0] == 'store':
                a = e[1]
                if len(a[1]) == 1 and a[1][0][1] == 1 and isfd(a[1][0][0]) and a[0] in rev:
                    out.append((k, (0, a[1]), rev[a[0]], e[2], e[3], None))
            elif e[0] == 'call' and e[1]:
                for j, a in enumerate(e[2]):
                    if len(a[1]) == 1 and a[1][0][1] == 1 and isfd(a[1][0][0]) and a[0] == O['Extra_Cstr']:
                        sm = self.rangesum(e[1], j)
                        if sm is None:
                            continue
                        base = (0, a[1])
                        out.append((k, base, '@range', (e[1], j, sm, e[2]), e[3], None))
        return out

    def eqs(self, s):
        return [(same(a), same(b)) for p, a, b in cmps(s) if p == 'eq']

    def need(self, s, ch):
        M, O = self.mask, self.O
        k, base, field, v, ins, _ = ch
        eqs = self.eqs(s)

        def unch(n, v):
            old, v = same(ld(base, O[n])), same(v)
            return v == old or (old, v) in eqs or (v, old) in eqs
        full = {'Min': M['MIN'] | M['MIN_MAX'] | M['DOM'], 'Max': M['MAX'] | M['MIN_MAX'] | M['DOM'],
                'Nb_Elem': M['DOM'], 'Extra_Cstr': M['DOM'], 'FD_Tag_Value': M['VAL'] | M['DOM'] | M['MIN_MAX']}
        # a domain only shrinks: the same number of elements is the same set
        nb = same(ld(base, O['Nb_Elem']))
        if any(nb in e for e in eqs) and field in ('Min', 'Max', '@range'):
            full = {n: m & ~M['DOM'] for n, m in full.items()}
        if field == '@range':
            name, j, sm, args = v
            need = 0
            f0 = cmps(s)
            ex = same(ld(base, O['Extra_Cstr']))
            noextra = any(p == 'eq' and same(a) == ex and fold(b) == 0 for p, a, b in f0)
            for cs, d in sm:
                for n in ('Min', 'Max'):
                    if n not in d:
                        continue
                    val = d[n]
                    if n == 'Min' and self.neverneg(cs, j):
                        continue
                    if n == 'Max' and noextra and 'Extra_Cstr' in d and self.trueval(d['Extra_Cstr'], cs):
                        continue
                    if val is not None:
                        val = subst(val, args)
                        if val is not None and unch(n, val):
                            continue
                    need |= full[n]
            return need
        if field not in full:
            return 0
        if field in ('Min', 'Max', 'Extra_Cstr') and unch(field, v):
            return 0
        if field == 'Nb_Elem':
            if unch('Nb_Elem', v):
                return 0
            mn, mx = ld(base, O['Min']), ld(base, O['Max'])
            if same(v) == same(vn.off(vn.add(mx, mn, -1), 1)) and any(
                    p == 'eq' and same(a) == same(ld(base, O['Vec'])) and fold(b) == 0 for p, a, b in cmps(s)) and \
                    not any(self.need(s, c) for c in self._cur if c[2] in ('Min', 'Max', '@range') and c[1] == base):
                return 0
        return full[field]

    def neverneg(self, cs, j):
        """path of a range function that supposes a negative minimum"""
        o = self.O['Min'] - self.O['Extra_Cstr']
        mn = same((0, ((('ld', (o, ((('arg', j), 1),)), 0), 1),)))
        return any(p == 'slt' and same(a) == mn and fold(b) == 0 for p, a, b in cmps(cs))

    def trueval(self, v, cs):
        if v is None:
            return False
        x = fold(v)
        if x is not None:
            return x != 0
        for f in cs.facts:
            if f and f[1] is True and same(f[0]) == same(v):
                return True
        return False

    def changed_masks(self):
        O, rep = self.O, self.rep
        nf = 0
        for f in self.fns:
            if f.name in self.prop or not self.fp.get(f.name):
                continue
            g = inline.expand(self.prog, f, want=lambda h: h.internal and inline.small(self.prog, h) and h.name not in self.prop)
            if f.internal and inline.small(self.prog, f):
                continue
            try:
                ps = vn.Eval(self.prog, g).paths(limit=4000)
            except vn.Limit:
                rep.undecided.append('%s: too many paths' % f.name)
                continue
            hit = False
            for s in ps:
                if s.end == 'noreturn' or not feasible(s):
                    continue
                if s.end == 'ret' and s.ret is not None and f.ret not in ('v', 'p') and fold(s.ret) == 0:
                    continue
                cur = self._cur = self.changes(f, s)
                if not cur:
                    continue
                hit = True
                rep.count(**{'paths that change a variable': 1})
                for ch in cur:
                    k, base, field, v, ins, _ = ch
                    if ch[2] == 'FD_Tag_Value':
                        rep.count(**{'instantiations': 1})
                        dates = [e for e in s.order if e[0] == 'store' and e[1] == vn.off(base, O['FD_INT_Date'])]
                        ok = dates and same(dates[-1][2]) == same((0, ((('ld', (0, ((('g', self.date), 1),)), 0), 1),)))
                        if not ok:
                            rep.violation('date:%s' % f.name, '%s: a constraint variable gets its value without the current '
                                          'date, so constraints on it are skipped or run for ever' % g.loc(ins))
                        self.consistent(f, g, s, ch)
                    n = self.need(s, ch)
                    if not n:
                        continue
                    got, unk = 0, False
                    for e in s.order[k + 1:]:
                        if e[0] == 'call' and e[1] in self.prop and e[2][0] == base:
                            m = fold(e[2][1])
                            if m is None:
                                unk = True
                            else:
                                got |= m
                    rep.count(**{'changes that need propagation': 1})
                    if n & ~got:
                        if unk:
                            rep.undecided.append('%s: mask not constant' % g.loc(ins))
                            continue
                        miss = [x for x in KINDS if self.mask[x] & n & ~got]
                        rep.violation('wake:%s:%s' % (f.name, field.strip('@')), '%s: %s of the variable changes on a path of %s that '
                                      'does not propagate to the constraints depending on its %s' % (
                                          g.loc(ins), {'@range': 'the domain', 'FD_Tag_Value': 'the value'}.get(field, field), f.name,
                                          ', '.join(m.lower().replace('_', '/') for m in miss)),
                                      ['path: blocks ' + '-'.join(map(str, s.visited))])
                    else:
                        rep.sample('%s %s in %s: chains %#x' % (g.loc(ins), field.strip('@'), f.name, got))
            nf += hit
        rep.count(**{'functions that change a variable': nf})
        rep.need(rep.cov.get('changes that need propagation', 0), 20, 'changes of domains in the FD engine')

    def consistent(self, f, g, s, ch):
        """the bounds of an instantiated variable are its value"""
        k, base, _, v, ins, _ = ch
        tag = self.K['tag_int']
        eqs = self.eqs(s)
        for n in ('Min', 'Max'):
            st = [e[2] for e in s.order if e[0] == 'store' and e[1] == vn.off(base, self.O[n])]
            val = st[-1] if st else ld(base, self.O[n])
            cand = [same(val)] + [b for a, b in eqs if a == same(val)] + [a for a, b in eqs if b == same(val)]
            a = at(v)
            if a is not None and a[0] == 'or' and fold(a[2]) is not None and not a[1][0] and all(c % 8 == 0 for _, c in a[1][1]):
                v = vn.off(a[1], fold(a[2]))      # the tag bits are free
            ok = any(same(v) == same(vn.off(vn.scale(c, 8), tag)) for c in cand if isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], int))
            if not ok:
                self.rep.violation('value:%s:%s' % (f.name, n), '%s: the variable is given a value different from its %s' % (g.loc(ins), n.lower()))

    # ---- Q
    def queue(self):
        O = self.O
        for f in self.prop.values():
            g = inline.expand(self.prog, f)
            a0 = (0, ((('arg', 0), 1),))
            m = norm(vn.atom(('and', vn.atom(('arg', 1)), ld(a0, O['Chains_Mask']))))
            q = ld(a0, O['Queue_Propag_Mask'])
            tp = (0, ((('ld', (0, ((('g', self.tp), 1),)), 0), 1),))
            ps = [s for s in vn.Eval(self.prog, g).paths() if s.end == 'ret' and feasible(s)]
            for s in ps:
                self.rep.count(**{'paths of the propagation routine': 1})
                fs = [(p, norm(a), b) for p, a, b in cmps(s)]
                sel = next((p for p, a, b in fs if a == m and fold(b) == 0), None)
                inq = next((p for p, a, b in fs if a == norm(q) and fold(b) == 0), None)
                st = {norm(a): norm(v) for a, v, _ in s.stores}
                keys = set(st)
                kq = norm(vn.off(a0, O['Queue_Propag_Mask']))
                kn = norm(vn.off(tp, O['Queue_Next_Fdv_Adr']))
                kt = norm(vn.atom(('g', self.tp)))
                locals_ = {k for k in keys if any(isinstance(x[0], tuple) and x[0][0] == 'alloca' for x in k[1])}
                keys -= locals_
                why = None
                if sel == 'eq':
                    if keys:
                        why = 'changes the queue although no chain of the variable is concerned'
                elif inq == 'eq':
                    if not (st.get(kq) in (m, norm(vn.atom(('or', q, vn.atom(('and', vn.atom(('arg', 1)), ld(a0, O['Chains_Mask'])))))))):
                        why = 'does not record the chains to re-execute of a variable it puts in the queue'
                    elif st.get(kn) != norm(a0):
                        why = 'does not link the variable after the last one of the queue'
                    elif st.get(kt) != norm(a0):
                        why = 'does not make the variable the last one of the queue'
                elif inq == 'ne':
                    if st.get(kq) != norm(vn.atom(('or', q, vn.atom(('and', vn.atom(('arg', 1)), ld(a0, O['Chains_Mask'])))))):
                        why = 'does not add the new chains to those of a variable already queued'
                    elif kt in keys or kn in keys:
                        why = 'queues a variable that is already in the queue'
                else:
                    why = 'does not test whether the variable is queued before it changes the queue' if keys else \
                        'returns without queueing the variable on a path where a chain may be concerned'
                if why:
                    self.rep.violation('queue:%s' % f.name, '%s: %s %s' % (f.loc(f.blocks[0][0]), f.name, why),
                                       ['path: blocks ' + '-'.join(map(str, s.visited))])

    # ---- A
    def dependency(self):
        O, K, rep = self.O, self.K, self.rep
        for k in KINDS:
            rep.count(**{'chains': 1})
            if K['mask_' + k] != 1 << K['nb_' + k]:
                rep.violation('mask:' + k, 'EngineFD/fd_inst.h: MASK_%s is not the bit of chain %d (CHAIN_NB_%s)' % (k, K['nb_' + k], k))
            n = 'off_Chain_' + {'MIN': 'Min', 'MAX': 'Max', 'MIN_MAX': 'Min_Max', 'DOM': 'Dom', 'VAL': 'Val'}[k]
            if K[n] != K['off_Chain_Min'] + 8 * K['nb_' + k]:
                rep.violation('chain:' + k, 'EngineFD/fd_inst.h: %s is not the chain number %d' % (n[4:], K['nb_' + k]))
        if K['k_MASK_TO_KEEP_IN_QUEUE'] <= max(K['mask_' + k] for k in KINDS):
            rep.violation('mask:keep', 'EngineFD/fd_inst.h: MASK_TO_KEEP_IN_QUEUE is the mask of a chain')
        n = 0
        for f in self.fns:
            if 'EngineFD' not in f.unit.rel or len(f.args) != 3 or f.args[0] != 'p':
                continue
            if not any(i[0] == 'store' and gep(f.defs, i[5]) == (0, O['Chains_Mask']) for b in f.blocks for i in b):
                continue
            n += 1
            a0 = (0, ((('arg', 0), 1),))
            g = inline.expand(self.prog, f)
            for s in vn.Eval(self.prog, g).paths():
                if s.end != 'ret' or not feasible(s):
                    continue
                rep.count(**{'paths that record a dependency': 1})
                st = [(norm(a), norm(v), i) for a, v, i in s.stores]
                mem = {a: v for a, v, i in st}
                cm = norm(vn.off(a0, O['Chains_Mask']))
                ch = norm((O['Chain_Min'], tuple(sorted(((('arg', 0), 1), (('arg', 1), 8)), key=repr))))
                if cm not in mem and ch not in mem:
                    fs = cmps(s)
                    tag = same(ld(a0, O['FD_Tag_Value']))
                    if not any(p == 'eq' and repr(tag) in repr(same(a)) for p, a, b in fs):
                        rep.violation('dep:%s:none' % f.name, '%s: a dependency on a variable that has no value yet is not recorded' % f.loc(f.blocks[0][0]))
                    continue
                want = norm(vn.atom(('or', ld(a0, O['Chains_Mask']), vn.atom(('shl', vn.const(1), vn.atom(('arg', 1)))))))
                if mem.get(cm) != want:
                    rep.violation('dep:%s:mask' % f.name, '%s: the chain of the new dependency is not marked in the variable (its constraints are not re-executed)' % f.loc(f.blocks[0][0]))
                rec = mem.get(ch)
                if rec is None:
                    rep.violation('dep:%s:chain' % f.name, '%s: the new dependency is not put in the chain whose bit is set' % f.loc(f.blocks[0][0]))
                    continue
                old = norm((0, ((('ld', (O['Chain_Min'], tuple(sorted(((('arg', 0), 1), (('arg', 1), 8)), key=repr))), 0), 1),)))
                if mem.get((rec[0] + self.K['off_CF_Pointer'], rec[1])) != norm(vn.atom(('arg', 2))):
                    rep.violation('dep:%s:cf' % f.name, '%s: the record of the dependency does not hold the constraint' % f.loc(f.blocks[0][0]))
                if mem.get((rec[0] + self.K['off_Next_Chain'], rec[1])) != old:
                    rep.violation('dep:%s:next' % f.name, '%s: the earlier dependencies of the chain are lost' % f.loc(f.blocks[0][0]))
        if not n:
            raise prep.AnalysisBroken('the function that records dependencies was not found')


def subst(v, args):
    """value over the parameters of a callee, in terms of the caller"""
    def go(v):
        r = vn.const(v[0])
        for a, c in v[1]:
            if a[0] == 'arg':
                x = args[a[1]]
            elif a[0] == 'ld':
                x = vn.atom(('ld', go(a[1]), 0))
            elif a[0] in ('g', 'fn'):
                x = vn.atom(a)
            else:
                raise KeyError
            r = vn.add(r, vn.scale(x, c))
        return r
    try:
        return go(v)
    except KeyError:
        return None



# ---- E: the execution loop, as segments between loop heads
def canon(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'phi':
            return ('v', v[1])
        if len(v) == 3 and v[0] == 'ssa':
            return ('v', v[2])
        return tuple(canon(x) for x in v)
    return v


def cn(v):
    return canon(norm(v)) if v is not None else None


def LD(v):
    return (0, ((('ld', v), 1),))


def OFF(v, n):
    return (v[0] + n, v[1])


class Seg:
    """one way through a function between two loop heads"""

    def __init__(self, h, s):
        self.h, self.s = h, s
        self.facts = [(p, cn(a), cn(b)) for p, a, b in cmps(s)]
        self.end, self.to = s.end, s.to if s.end == 'head' else None
        self.phi = {k: cn(v) for k, v in s.phi.items()} if s.end == 'head' else {}
        self.stores = {cn(a): cn(v) for a, v, _ in s.stores}
        self.ret = fold(s.ret) if s.ret is not None else None

    def has(self, p, a, b):
        sw = {'eq': 'eq', 'ne': 'ne'}
        return (p, a, b) in self.facts or (sw[p], b, a) in self.facts


def segments(prog, g):
    out = []
    for h in [0] + [x for x in g.heads if x]:
        for s in vn.Eval(prog, g).paths(limit=3000, start=h, cut=True):
            if s.end != 'noreturn' and feasible(s):
                out.append(Seg(h, s))
    return out


def execution(rep, prog, d):
    O, K = d.O, d.K
    C = lambda n: (n, ())
    TP, DUM, DATE = (0, ((('g', d.tp), 1),)), (0, ((('g', d.dummy), 1),)), (0, ((('g', d.date), 1),))
    # functions that empty the queue
    clear = {}
    for f in d.fns:
        if 'EngineFD' in f.unit.rel and f.args == [] and any(
                i[0] == 'store' and i[4] == ['g', d.dummy, 0] for b in f.blocks for i in b) and f.heads:
            clear[f.name] = f
    for f in clear.values():
        segs = segments(prog, f)
        hs = {s.h for s in segs if s.h}
        for s in segs:
            rep.count(**{'segments of the queue code': 1})
            if s.h == 0 and s.end == 'ret' and not s.has('eq', LD(TP), DUM):
                rep.violation('clear:%s:keep' % f.name, '%s: variables are left in the queue' % f.loc(f.blocks[0][0]))
            if s.h in hs:
                vs = [k for k in (i[1] for i in f.blocks[s.h] if i[0] == 'phi')]
                ok = any(s.stores.get((O['Queue_Propag_Mask'], ((('v', x), 1),))) == C(0) for x in vs)
                if not ok:
                    rep.violation('clear:%s:mark' % f.name, '%s: a variable is taken out of the queue but stays marked as queued (it is never '
                                  'queued again)' % f.loc(f.blocks[s.h][0]))
                if s.end == 'ret' and not (any(s.has('eq', (0, ((('v', x), 1),)), LD(TP)) for x in vs) and s.stores.get(TP) == DUM):
                    rep.violation('clear:%s:end' % f.name, '%s: the queue is not empty when %s returns' % (f.loc(f.blocks[s.h][0]), f.name))
                if s.end == 'head' and not any(s.phi.get(x) == LD((O['Queue_Next_Fdv_Adr'], ((('v', x), 1),))) for x in vs):
                    rep.violation('clear:%s:next' % f.name, '%s: %s does not go on with the next variable of the queue' % (f.loc(f.blocks[s.h][0]), f.name))
    # functions that stop a constraint
    stop = {f.name for f in d.fns if 'EngineFD' in f.unit.rel and len(f.args) == 1 and any(
        i[0] == 'store' and gep(f.defs, i[5]) == (0, K['off_Optim_Pointer']) for b in f.blocks for i in b)}
    f = prog.need('Pl_Fd_After_Add_Cstr')
    g = inline.expand(prog, f, want=lambda h: h.internal and inline.small(prog, h) and h.name not in clear and h.name not in stop and h.name not in d.prop)
    loc = f.loc(f.blocks[0][0])
    segs = segments(prog, g)
    rep.count(**{'segments of the queue code': len(segs)})

    def ind(s):
        return [(e[3], cn(s.s.env.get(e[3][4]) if isinstance(e[3][4], int) else None)) for e in s.s.order if e[0] == 'call' and e[1] is None]
    R = set()
    for s in segs:
        for x in (i[1] for i in g.blocks[s.h] if i[0] == 'phi'):
            cf = LD((K['off_CF_Pointer'], ((('v', x), 1),)))
            if any(c == LD(OFF(cf, K['off_Cstr_Address'])) for _, c in ind(s)):
                R.add((s.h, x))
    if len(R) != 1:
        rep.undecided.append('%s: the loop over the constraints of a chain was not recognised' % loc)
        return
    (rh, rp), = R
    p = (0, ((('v', rp), 1),))
    cf = LD(OFF(p, K['off_CF_Pointer']))
    nxt = LD(OFF(p, K['off_Next_Chain']))
    dt = LD(LD(OFF(cf, K['off_Optim_Pointer'])))
    bad = lambda key, txt: rep.violation('exec:' + key, '%s: %s' % (loc, txt))
    F = None
    for s in segs:
        if s.h != rh:
            continue
        rep.count(**{'segments of the execution loop': 1})
        calls = ind(s)
        first = [i for i, c in calls if c == LD(OFF(cf, K['off_Cstr_Address']))]
        if not first:
            if not (s.has('ne', dt, C(1)) and s.has('ne', dt, LD(DATE))):
                bad('skip', 'a constraint to re-execute is skipped although it is neither stopped nor out of date')
        else:
            r = (0, ((('call', first[0][1], None), 1),))
            failed = s.has('eq', r, C(0))
            if not failed and not s.has('ne', r, C(0)):
                bad('result', 'the outcome of a re-executed constraint is not tested')
            sec = [i for i, c in calls if c == r]
            if not failed and not sec and not s.has('eq', r, C(1)):
                bad('switch', 'a triggered case of a constraint is not executed')
            if sec:
                r2 = (0, ((('call', sec[0][1], None), 1),))
                if s.has('eq', r2, C(0)):
                    failed = True
                elif not s.has('ne', r2, C(0)):
                    bad('result2', 'the outcome of a triggered case of a constraint is not tested')
                elif not any(e[0] == 'call' and e[1] in stop and cn(e[2][0]) == cf for e in s.s.order):
                    bad('stop', 'a constraint whose case was executed is not stopped')
            if failed:
                if s.end != 'ret' or s.ret != 0:
                    bad('fail', 'the addition does not fail although a re-executed constraint fails')
                continue
        if s.end == 'ret':
            bad('ret', 'the execution ends before all constraints were re-executed')
        elif s.to == rh:
            if s.phi.get(rp) != nxt:
                bad('next', 'the next constraint of a chain is skipped')
        elif not s.has('eq', nxt, C(0)):
            bad('rest', 'the rest of a chain is not re-executed')
    # any failing return empties the queue
    for s in segs:
        if s.end == 'ret' and s.ret == 0:
            cl = [k for k, e in enumerate(s.s.order) if e[0] == 'call' and e[1] in clear]
            if not cl:
                if not clear and (s.stores.get(TP) == DUM or s.has('eq', LD(TP), DUM)):
                    continue
                bad('clear', 'variables stay in the queue after a failure')
            elif s.h:
                st = [k for k, e in enumerate(s.s.order) if e[0] == 'store' and cn(e[1]) == OFF(DUM, O['Queue_Next_Fdv_Adr'])]
                if not st or st[0] > cl[0]:
                    bad('clearfrom', 'after a failure the queue is emptied from a variable that may have left it')
    # loop over the chains
    ent = {s.phi.get(rp) for s in segs if s.to == rh and s.h != rh}
    Cs = set()
    for e in ent:
        a = at(e)
        if a is not None and a[0] == 'ld' and at(a[1]) is not None and at(a[1])[0] == 'v':
            Cs.add(at(a[1])[1])
        else:
            Cs.add(None)
    if len(Cs) != 1 or None in Cs:
        rep.undecided.append('%s: the loop over the chains was not recognised' % loc)
        return
    cp, = Cs
    ch = next((s.h for s in segs if s.to == rh and s.h != rh), None)
    ms = {at(a[1][0][0][1] if at(a[1][0][0][1]) else a[1][0][0][2])[1] for s in segs if s.to == rh and s.h == ch for q, a, b in s.facts
          if q == 'ne' and b == C(0) and at(a) and at(a)[0] == 'and' and (1, ()) in at(a) and
          (at(at(a)[1]) or at(at(a)[2]) or ('', 0))[0] == 'v' for a in [a]}
    if len(ms) != 1:
        rep.undecided.append('%s: the test of the chains was not recognised' % loc)
        return
    mp, = ms
    c, m = (0, ((('v', cp), 1),)), (0, ((('v', mp), 1),))
    bit = norm2(('and', m, C(1)))
    shr = (0, ((('lshr', m, C(1)), 1),))
    for s in segs:
        if s.to == ch:
            if s.h in (ch, rh):
                if s.phi.get(cp) != OFF(c, 8) or s.phi.get(mp) not in (shr, (0, ((('ashr', m, C(1)), 1),))):
                    bad('step', 'the chains are not examined in step with the mask of the variable')
            else:
                v = s.phi.get(cp)
                F = OFF(v, -O['Chain_Min'])
                if s.phi.get(mp) != LD(OFF(F, O['Queue_Propag_Mask'])) or at(F) is None:
                    bad('start', 'the chains examined are not those of the queued variable, from the first')
                    continue
                keep = s.stores.get(OFF(F, O['Queue_Propag_Mask']))
                if keep != C(K['k_MASK_TO_KEEP_IN_QUEUE']):
                    bad('keep', 'the variable whose constraints are re-executed is not kept in the queue meanwhile with no chain selected')
        if s.h == ch and s.to == ch and not s.has('eq', bit, C(0)):
            bad('chainskip', 'a selected chain is not re-executed')
        if s.h == ch and s.to != ch and s.to != rh and not s.has('eq', m, C(0)):
            bad('chainrest', 'the remaining selected chains are not re-executed')
    if F is None or at(F) is None:
        return
    fid = at(F)[1]
    q = LD(OFF(F, O['Queue_Propag_Mask']))
    rest = norm2(('and', q, C(K['k_MASK_TO_KEEP_IN_QUEUE'] - 1)))
    mh = next((s.h for s in segs if s.to == ch and s.h not in (ch, rh)), None)
    for s in segs:
        if s.end == 'ret' and s.ret != 0:
            rep.count(**{'successful ends of an addition': 1})
            if s.h == 0:
                if not (s.has('eq', LD(TP), DUM)):
                    bad('early', 'the addition succeeds without re-executing the constraints of the queued variables')
            elif not (s.h == ch and s.has('eq', rest, C(0)) and s.has('eq', F, LD(TP)) and s.stores.get(TP) == DUM):
                bad('end', 'the addition succeeds while variables are queued, or leaves the queue not empty')
        if s.h == ch and s.to == mh:
            if s.stores.get(OFF(F, O['Queue_Propag_Mask'])) != rest:
                bad('unkeep', 'the mark that keeps a variable in the queue is not removed')
            if s.has('ne', rest, C(0)):
                if s.phi.get(fid) != F:
                    bad('again', 'a variable changed again during its own re-execution is not re-examined')
            elif s.has('eq', rest, C(0)):
                if s.phi.get(fid) != LD(OFF(F, O['Queue_Next_Fdv_Adr'])):
                    bad('nextvar', 'the next variable of the queue is not examined')
        if s.h == 0 and s.to == mh and s.phi.get(fid) != LD(OFF(DUM, O['Queue_Next_Fdv_Adr'])):
            bad('firstvar', 'the first variable of the queue is not examined')


def norm2(a):
    return norm((0, ((a, 1),)))


def run(rep):
    prog = ir.program()
    K = probe(rep)
    d = Domain(rep, prog, K)
    d.find()
    d.changed_masks()
    d.queue()
    d.dependency()
    execution(rep, prog, d)
    pairing(rep, prog, d)
    widths(rep, prog, d)
    return rep


def pairing(rep, prog, d):
    """P: additions are opened, closed, and their outcomes used"""
    OPEN, CLOSE = 'Pl_Fd_Before_Add_Cstr', 'Pl_Fd_After_Add_Cstr'
    calls = {}
    for f in d.fns:
        calls[f.name] = {ir.callee(i) for _, i in f.calls()}
    # functions that restrict a variable and count on an addition being open
    inside = set(d.prop)
    ch = True
    state = {}
    while ch:
        ch = False
        for f in d.fns:
            if f.name in inside or f.name in (OPEN, CLOSE):
                continue
            if needs_open(prog, f, inside, OPEN, CLOSE):
                inside.add(f.name)
                ch = True
    api = set(re.findall(r'\b(Pl_Fd_Tell_\w+)\s*\(', open(prep.SRC + '/EngineFD/fd_inst.h', errors='replace').read()))
    fd = ''
    for r, _, fs in os.walk(prep.SRC):
        for x in fs:
            if x.endswith('.fd') and os.path.basename(r) in ('EngineFD', 'BipsFD'):
                fd += open(os.path.join(r, x), errors='replace').read()
    pl = ''
    for x in os.listdir(prep.SRC + '/BipsFD'):
        if x.endswith('.pl'):
            pl += open(prep.SRC + '/BipsFD/' + x, errors='replace').read()
    called = set().union(*calls.values()) if calls else set()
    for n in sorted(inside - set(d.prop)):
        rep.count(**{'functions that restrict within an open addition': 1})
        f = prog.fn(n) or next(x for x in d.fns if x.name == n)
        isbip = re.search(r"'?\b%s\b'?" % n, pl)
        if isbip or not (n in called or n in api or re.search(r'\b%s\b' % n, fd) or f.internal):
            rep.violation('open:' + n, '%s: %s restricts a constraint variable without opening an addition' % (f.loc(f.blocks[0][0]), n))
    for f in d.fns:
        if OPEN not in calls[f.name] or f.name in (OPEN, CLOSE):
            continue
        rep.count(**{'functions that open an addition': 1})
        for s in vn.Eval(prog, f).paths(limit=4000):
            if s.end not in ('ret',) or not feasible(s):
                continue
            seq = [(c, args, i) for c, args, i in s.calls if c in (OPEN, CLOSE) or c in inside]
            opened = None
            for c, args, i in seq:
                if c == OPEN:
                    opened = i
                elif c == CLOSE:
                    if opened is None:
                        rep.violation('close:' + f.name, '%s: an addition is closed that was not opened' % f.loc(i))
                    opened = None
            if opened is not None:
                rep.violation('unclosed:' + f.name, '%s: an addition is opened on a path of %s that never runs the constraints it wakes' % (f.loc(opened), f.name))
    # outcomes
    post = inside - set(d.prop) | {CLOSE} | {n for n in called if n and re.match(r'Pl_Fd_(In_|Assign_|Remove_|Unify_)', n)}
    post |= {f.name for f in d.fns if f.ret != 'v' and CLOSE in calls[f.name]}
    post |= set(re.findall(r'^\s*(pl_\w+)\s*\(', fd, re.M))
    for f in d.fns:
        used = flow.uses(f)
        for bi, ins in f.calls():
            c = ir.callee(ins)
            if c in post and ins[2] != 'v':
                rep.count(**{'outcomes of domain changes': 1})
                if ins[1] not in used:
                    rep.violation('outcome:%s:%s' % (f.name, c), '%s: the failure of %s is ignored' % (f.loc(ins), c))


def needs_open(prog, f, inside, OPEN, CLOSE):
    """can f reach a call of `inside` with no addition opened by itself?"""
    seen = set()
    st = [(0, False)]
    while st:
        b, o = st.pop()
        if (b, o) in seen:
            continue
        seen.add((b, o))
        dead = False
        for ins in f.blocks[b]:
            if ins[0] != 'call':
                continue
            c = ir.callee(ins)
            if ins[6] or (c and prog.is_noreturn(c, f.unit)):
                dead = True
                break
            if c == OPEN:
                o = True
            elif c == CLOSE:
                o = False
            elif c in inside and not o:
                return True
        if not dead:
            st += [(s, o) for s in f.succ[b]]
    return False


def widths(rep, prog, d):
    """S: a store to a field of a constraint variable covers exactly the field"""
    fields = {d.O[n]: (n, d.K['size_' + n]) for n in FIELDS}
    r0 = d.O['Extra_Cstr']
    for f in d.fns:
        own = d.fp.get(f.name, set())
        rng = {i for i in range(len(f.args)) if f.args[i] == 'p' and i < len(f.cty) and 'Range' in str(f.cty[i])}
        for b in f.blocks:
            for ins in b:
                if ins[0] != 'store':
                    continue
                base, off = gep(f.defs, ins[5])
                if not isinstance(base, int):
                    continue
                if base in rng and base < len(f.args):
                    off += r0
                elif base not in own or base >= len(f.args):
                    if not isfdv(f, base, own, d):
                        continue
                sz = {'i8': 1, 'i16': 2, 'i32': 4, 'float': 4}.get(ins[7], 8)
                if off in fields:
                    rep.count(**{'stores to fields': 1})
                    if sz != fields[off][1]:
                        rep.violation('width:%s:%s' % (f.name, fields[off][0]), '%s: %d bytes are written to the %d-byte field %s: %s' % (
                            f.loc(ins), sz, fields[off][1], fields[off][0], 'the next field is overwritten' if sz > fields[off][1] else 'part of it keeps its old content'))
                elif any(o < off < o + z[1] for o, z in fields.items()):
                    rep.violation('width:%s:%d' % (f.name, off), '%s: a store into the middle of a field of a constraint variable' % f.loc(ins))


def isfdv(f, base, own, d):
    """a value passed on as a constraint variable"""
    for b in f.blocks:
        for ins in b:
            if ins[0] == 'call':
                c = ir.callee(ins)
                for i, o in enumerate(ins[5]):
                    if o == base and i in d.fp.get(c, ()):
                        return True
    return False

"""Path-sensitive abstract interpreter over the IR facts (tag sets, intervals, atoms, pointers).

Abstract values
  int                       constant (signed)
  ('s', id, k)              unknown scalar id plus constant k; interval in st.rng[id]
  ('w', t, r)               word of Prolog term t; r = representation id (0: dereferenced)
  ('t', t, r)               tag of that word (word & 7)
  ('p', region, off)        pointer; off may be None
  ('mk', tag, v)            word built by tagging v
  ('a', name)               index of the atom spelled name
  ('fa', t) / ('fac', a, n) functor/arity word of term t / constant functor word
  ('c', pred, a, b)         comparison result
  ('fn', name)              function address
Memory regions: ('g', unit|None, name) ('al', frame, ssa) ('h', t) body of term t, ('ref', t) ...

No program code is executed and no solver is used: states are joined and widened at loop headers.
"""
import itertools

from . import ir
from .prep import AnalysisBroken

KINDS = ('VAR', 'FDV', 'INT', 'FLT', 'ATM', 'LST', 'STC')
ALL = frozenset(KINDS)
TAGNUM = {'VAR': 0, 'LST': 1, 'STC': 2, 'ATM': 3, 'FLT': 4, 'FDV': 5, 'INT': 7}
NUMTAG = {v: k for k, v in TAGNUM.items()}
NUMTAG[6] = None
I64 = (-(1 << 63), (1 << 63) - 1)
INTLO, INTHI = -(1 << 60), (1 << 60) - 1
ATOM_MAX_BITS = 54

_INV = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
        'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
_SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
         'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


class Budget(Exception):
    pass


def width(ty):
    if ty[0] == 'i':
        return int(ty[1:])
    return 64


def trange(ty):
    w = width(ty)
    if w == 1:
        return (0, 1)
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1)


class State:
    __slots__ = ('rng', 'ne', 'dfn', 'kinds', 'atoms', 'fnc', 'raw', 'mem', 'auto', 'trace', 'esc')

    def __init__(self):
        self.rng = {}
        self.ne = {}
        self.dfn = {}
        self.kinds = {}
        self.atoms = {}     # t -> (incl frozenset|None, excl frozenset)
        self.fnc = {}       # t -> (incl frozenset of (name, arity)|None, excl frozenset)
        self.raw = {}
        self.mem = {}
        self.auto = ()
        self.trace = None
        self.esc = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.rng = self.rng.copy()
        s.ne = self.ne.copy()
        s.dfn = self.dfn.copy()
        s.kinds = self.kinds.copy()
        s.atoms = self.atoms.copy()
        s.fnc = self.fnc.copy()
        s.raw = self.raw.copy()
        s.mem = self.mem.copy()
        s.auto = self.auto
        s.trace = self.trace
        s.esc = self.esc
        return s

    def note(self, where):
        self.trace = (where, self.trace)

    def path(self, n=40):
        r = []
        t = self.trace
        while t is not None and len(r) < n:
            r.append(t[0])
            t = t[1]
        r.reverse()
        return r


class Frame:
    __slots__ = ('fn', 'fid', 'up', 'roots', 'depth', 'site')

    def __init__(self, fn, fid, up, roots, depth, site):
        self.fn = fn
        self.fid = fid
        self.up = up
        self.roots = roots
        self.depth = depth
        self.site = site


class Client:
    """default policy; checks subclass it"""
    maxdepth = 8

    def expand(self, name):
        return None

    inline_limit = 600

    def call(self, eng, st, frame, name, args, ins):
        return None

    def inline(self, eng, name, fn, frame):
        return True

    def store(self, eng, st, frame, ptr, val, ins):
        pass

    def load(self, eng, st, frame, ptr, ins):
        pass

    def branch(self, eng, st, frame, ins, taken):
        pass

    def overflow(self, eng, st, frame, ins, lo, hi):
        pass


class Engine:
    def __init__(self, prog, client, budget=200000):
        self.P = prog
        self.C = client
        self.budget = budget
        self.steps = 0
        self.cnt = itertools.count(1)
        self.fids = {}
        self.throws = []          # (kind, args, st, frame, ins)
        self.maxblock = 48
        self.sublimit = 0
        self.blown = set()
        self.consts = const_globals(prog)
        self.mods = mod_sets(prog)

    # ---------------------------------------------------------------- values
    def fresh(self, st, lo=None, hi=None, ty='i64', dfn=None):
        i = next(self.cnt)
        if lo is None:
            lo, hi = trange(ty) if ty[0] == 'i' else I64
        st.rng[i] = (lo, hi)
        if dfn is not None:
            st.dfn[i] = dfn
        return ('s', i, 0)

    def term(self, st, kinds=ALL, der=False):
        t = next(self.cnt)
        if kinds is not ALL:
            st.kinds[t] = frozenset(kinds)
        return ('w', t, 0 if der else next(self.cnt))

    def kinds(self, st, t):
        return st.kinds.get(t, ALL)

    def status(self, st, r):
        return 'der' if r == 0 else st.raw.get(r, 'any')

    def interval(self, st, v, ty='i64'):
        if isinstance(v, int):
            return (v, v)
        if v[0] == 's':
            r = st.rng.get(v[1])
            if r is None:
                i = v[1]
                if isinstance(i, tuple) and i[0] == 'int':
                    r = (INTLO, INTHI)
                elif isinstance(i, tuple) and i[0] in ('atm', 'fn', 'ar'):
                    r = (0, 1 << 40) if i[0] != 'ar' else (1, 255)
                    if i[0] == 'ar':
                        f = st.fnc.get(i[1])
                        if f and f[0]:
                            ns = [n for _, n in f[0]]
                            r = (min(ns), max(ns))
                else:
                    r = trange(ty)
            return (r[0] + v[2], r[1] + v[2])
        if v[0] == 't':
            return (0, 7)
        if v[0] == 'c':
            d = self.decide(st, v)
            if d is None:
                return (0, 1)
            return (int(d), int(d))
        if v[0] == 'a':
            return (0, 1 << 40)
        if v[0] == 'p':
            return (1, I64[1])
        if v[0] == 'fn':
            return (1, I64[1])
        return trange(ty) if ty[0] == 'i' else I64

    def set_range(self, st, i, lo, hi):
        """intersect range of symbol i; False if empty"""
        cur = self.interval(st, ('s', i, 0))
        lo = max(lo, cur[0])
        hi = min(hi, cur[1])
        ne = st.ne.get(i)
        if ne:
            while lo in ne and lo <= hi:
                lo += 1
            while hi in ne and lo <= hi:
                hi -= 1
        if lo > hi:
            return False
        if (lo, hi) != cur:
            st.rng[i] = (lo, hi)
            d = st.dfn.get(i)
            if d is not None:
                return self.back(st, d, lo, hi)
        return True

    def back(self, st, d, lo, hi):
        """propagate a refinement of a defined symbol to its operand"""
        if d[0] in ('cast',) and not isinstance(d[1], int) and d[1][0] == 's':
            # value preserved when the operand fits the target width
            a = self.interval(st, d[1])
            if d[2][0] <= a[0] and a[1] <= d[2][1]:
                return self.set_range(st, d[1][1], lo - d[1][2], hi - d[1][2])
        elif d[0] == 'bool':
            if lo == hi:
                r = self.assume(st, d[1], bool(lo))
                return r
        return True

    # ---------------------------------------------------------------- comparisons
    def decide(self, st, c):
        """truth of a boolean value or None"""
        if isinstance(c, int):
            return bool(c & 1) if c in (0, 1, -1) else bool(c)
        if c[0] == 'and':
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if c[0] == 'or':
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if c[0] == 'not':
            d = self.decide(st, c[1])
            return None if d is None else not d
        if c[0] != 'c':
            if c[0] == 's':
                lo, hi = self.interval(st, c, 'i1')
                return bool(lo) if lo == hi else None
            return None
        s1 = st.copy()
        s2 = st.copy()
        t = self.assume(s1, c, True)
        f = self.assume(s2, c, False)
        if t and f:
            return None
        if t:
            return True
        return False

    def assume(self, st, c, truth):
        """refine st in place; returns False when infeasible"""
        if isinstance(c, int):
            return bool(c) == truth
        k = c[0]
        if k == 'not':
            return self.assume(st, c[1], not truth)
        if k == 'and':
            if truth:
                return self.assume(st, c[1], True) and self.assume(st, c[2], True)
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a and b:
                return False
            if a:
                return self.assume(st, c[2], False)
            if b:
                return self.assume(st, c[1], False)
            return True
        if k == 'or':
            if not truth:
                return self.assume(st, c[1], False) and self.assume(st, c[2], False)
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False and b is False:
                return False
            if a is False:
                return self.assume(st, c[2], True)
            if b is False:
                return self.assume(st, c[1], True)
            return True
        if k == 's':
            return self.set_range(st, c[1], (1 if truth else 0) - c[2], (1 if truth else 0) - c[2])
        if k != 'c':
            return True
        pred, a, b = c[1], c[2], c[3]
        if not truth:
            p = _INV.get(pred)
            if p is None:
                return True
            pred = p
        return self.rel(st, pred, a, b)

    def rel(self, st, pred, a, b):
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
            pred = _SWAP.get(pred, pred)
        if isinstance(a, int) and isinstance(b, int):
            return _cmpc(pred, a, b)
        if pred not in _INV:
            return True
        ka = a[0]
        # booleans compared with constants
        if ka in ('c', 'not', 'and', 'or') and isinstance(b, int):
            if pred == 'eq':
                return self.assume(st, a, True) if b in (1, -1) else (self.assume(st, a, False) if b == 0 else False)
            if pred == 'ne':
                return self.assume(st, a, False) if b in (1, -1) else (self.assume(st, a, True) if b == 0 else True)
            if pred in ('sgt', 'ugt') and b == 0:
                return self.assume(st, a, True)
            return True
        if ka == 't':
            if isinstance(b, int):
                return self.rel_tag(st, pred, a, b)
            if b[0] == 't' and a[1:] == b[1:]:
                return pred in ('eq', 'sge', 'sle', 'uge', 'ule')
            if b[0] == 't':
                return self.rel_tagtag(st, pred, a, b)
            return True
        if ka == 'mk' and isinstance(b, tuple) and b[0] == 'w':
            a, b = b, a
            ka = 'w'
        if ka == 'a' and isinstance(b, tuple) and b[0] == 's':
            a, b = b, a
            pred = _SWAP[pred]
            ka = 's'
        if ka == 'w':
            if pred in ('eq', 'ne'):
                return self.rel_word(st, pred, a, b)
            return True
        if ka == 'fac':
            if isinstance(b, tuple) and b[0] == 'fa':
                a, b = b, a
                ka = 'fa'
        if ka == 'fa':
            if isinstance(b, tuple) and b[0] == 'fac' and pred in ('eq', 'ne'):
                return self.rel_functor(st, pred, a[1], b[1], b[2])
            if isinstance(b, int) and pred in ('eq', 'ne') and b >> ATOM_MAX_BITS > 0:
                n = atom_const_name(b & ((1 << ATOM_MAX_BITS) - 1))
                if n is not None:
                    return self.rel_functor(st, pred, a[1], n, b >> ATOM_MAX_BITS)
            return True
        if ka == 'fac' and isinstance(b, tuple) and b[0] == 'fac' and pred in ('eq', 'ne'):
            same = a == b
            return same if pred == 'eq' else not same
        if ka == 'a':
            if isinstance(b, tuple) and b[0] == 'a':
                if pred == 'eq':
                    return a[1] == b[1]
                if pred == 'ne':
                    return a[1] != b[1]
                return True
            if isinstance(b, int):
                n = atom_const_name(b)
                if pred == 'eq':
                    return n == a[1]
                if pred == 'ne':
                    return n != a[1]
                if b <= 0 and pred in ('slt', 'ult'):
                    return False
                if b < 0 and pred == 'sle':
                    return False
                return True
            return True
        if ka == 'mk':
            if isinstance(b, tuple) and b[0] == 'mk':
                if a[1] != b[1]:
                    return pred != 'eq'
                return self.rel(st, pred, a[2], b[2]) if pred in ('eq', 'ne') else True
            if isinstance(b, int) and pred in ('eq', 'ne'):
                w = decode_const_word(b)
                if w is not None and w[1] == a[1]:
                    return self.rel(st, pred, a[2], w[2])
                return pred == 'ne'
            return True
        if ka == 'p' or (isinstance(b, tuple) and b[0] == 'p'):
            if isinstance(b, int) and b == 0 and ka == 'p':
                return pred in ('ne', 'ugt', 'uge')
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'p' and b[0] == 'p':
                if a[1] == b[1] and a[2] is not None and b[2] is not None:
                    return _cmpc(pred, a[2], b[2])
                if a[1] != b[1] and pred == 'eq' and a[1][0] in ('g', 'al', 'str') and b[1][0] in ('g', 'al', 'str'):
                    return False
                return True
            if ka == 's' and pred == 'eq' and isinstance(b, tuple) and a[2] == 0:
                pass
            return True
        if ka == 'fn' or (isinstance(b, tuple) and b[0] == 'fn'):
            if isinstance(b, int) and b == 0:
                return pred in ('ne', 'ugt', 'uge')
            if isinstance(b, tuple) and b[0] == 'fn' and ka == 'fn':
                return (a[1] == b[1]) == (pred == 'eq') if pred in ('eq', 'ne') else True
            return True
        if ka == 's':
            i = a[1]
            # atom index of a term
            if isinstance(i, tuple) and i[0] == 'atm' and a[2] == 0 and (isinstance(b, int) or b[0] == 'a'):
                n = b[1] if not isinstance(b, int) else atom_const_name(b)
                if pred in ('eq', 'ne') and n is not None:
                    return self.rel_atom(st, pred, i[1], n)
                return True
            if isinstance(i, tuple) and i[0] == 'fn' and a[2] == 0 and (isinstance(b, int) or b[0] == 'a'):
                n = b[1] if not isinstance(b, int) else atom_const_name(b)
                if pred in ('eq', 'ne') and n is not None:
                    return self.rel_fname(st, pred, i[1], n)
                return True
            if isinstance(i, tuple) and i[0] == 'ar' and isinstance(b, int):
                if not self.rel_arity(st, pred, i[1], b - a[2]):
                    return False
            if isinstance(b, int):
                return self.rel_int(st, pred, a, b)
            if b[0] == 's':
                if a[1] == b[1]:
                    return _cmpc(pred, a[2], b[2])
                la, ha = self.interval(st, a)
                lb, hb = self.interval(st, b)
                if pred in ('ult', 'ule', 'ugt', 'uge'):
                    if la >= 0 and lb >= 0:
                        pred = 's' + pred[1:]
                    else:
                        return True
                if pred == 'eq':
                    lo, hi = max(la, lb), min(ha, hb)
                    if lo > hi:
                        return False
                    return self.set_range(st, a[1], lo - a[2], hi - a[2]) and self.set_range(st, b[1], lo - b[2], hi - b[2])
                if pred == 'ne':
                    return not (la == ha == lb == hb)
                if pred == 'slt':
                    return la < hb and self.set_range(st, a[1], I64[0] * 4, hb - 1 - a[2]) and self.set_range(st, b[1], la + 1 - b[2], I64[1] * 4)
                if pred == 'sle':
                    return la <= hb and self.set_range(st, a[1], I64[0] * 4, hb - a[2]) and self.set_range(st, b[1], la - b[2], I64[1] * 4)
                if pred == 'sgt':
                    return self.rel(st, 'slt', b, a)
                if pred == 'sge':
                    return self.rel(st, 'sle', b, a)
                return True
            if b[0] == 'a' and pred == 'eq':
                return True
        return True

    def rel_int(self, st, pred, a, c):
        i, k = a[1], a[2]
        lo, hi = self.interval(st, a)
        if pred[0] == 'u':
            if lo >= 0:
                pred = 's' + pred[1:]
                if c < 0:
                    return pred in ('slt', 'sle')
            else:
                if c >= 0 and pred in ('ult', 'ule'):
                    return self.set_range(st, i, 0 - k, (c - 1 if pred == 'ult' else c) - k)
                return True
        c0 = c - k
        if pred == 'eq':
            if c < lo or c > hi or c0 in st.ne.get(i, ()):
                return False
            return self.set_range(st, i, c0, c0)
        if pred == 'ne':
            if lo == hi == c:
                return False
            if lo <= c <= hi:
                n = st.ne.get(i, frozenset())
                if len(n) < 40:
                    st.ne[i] = n | {c0}
                r = st.rng.get(i) or self.interval(st, ('s', i, 0))
                l, h = r
                while l in st.ne[i]:
                    l += 1
                while h in st.ne[i]:
                    h -= 1
                if l > h:
                    return False
                ok = True
                if (l, h) != r:
                    st.rng[i] = (l, h)
                    d = st.dfn.get(i)
                    if d is not None:
                        ok = self.back(st, d, l, h)
                if ok:
                    d = st.dfn.get(i)
                    if d is not None and d[0] == 'cast' and not isinstance(d[1], int) and d[1][0] == 's':
                        ai = self.interval(st, d[1])
                        if d[2][0] <= ai[0] and ai[1] <= d[2][1]:
                            return self.rel(st, 'ne', d[1], c)
                return ok
            return True
        if pred == 'slt':
            return self.set_range(st, i, I64[0] * 4, c0 - 1)
        if pred == 'sle':
            return self.set_range(st, i, I64[0] * 4, c0)
        if pred == 'sgt':
            return self.set_range(st, i, c0 + 1, I64[1] * 4)
        if pred == 'sge':
            return self.set_range(st, i, c0, I64[1] * 4)
        return True

    def set_kinds(self, st, t, ks):
        cur = self.kinds(st, t)
        n = cur & ks
        if not n:
            return False
        if n != cur:
            st.kinds[t] = n
        return True

    def rel_tag(self, st, pred, a, k):
        t, r = a[1], a[2]
        s = self.status(st, r)
        if pred in ('eq', 'ne'):
            kind = NUMTAG.get(k)
            if kind is None:
                return pred == 'ne'
            return self.tag_is(st, t, r, frozenset([kind]), pred == 'eq')
        if pred[0] == 'u':
            pred = 's' + pred[1:]
        sel = frozenset(x for x in KINDS if _cmpc(pred, TAGNUM[x], k))
        return self.tag_is(st, t, r, sel, True)

    def tag_is(self, st, t, r, sel, truth):
        """the tag of word (t,r) is (not) one of the kinds sel (VAR standing for tag REF)"""
        if not truth:
            sel = ALL - sel
        s = self.status(st, r)
        if s == 'der':
            return self.set_kinds(st, t, sel)
        if s == 'self':
            return 'VAR' in sel
        if s == 'non':
            return self.set_kinds(st, t, sel - {'VAR'})
        if s == 'ref':
            return 'VAR' in sel
        # any
        if 'VAR' not in sel:
            if not self.set_kinds(st, t, sel):
                return False
            st.raw[r] = 'non'
            return True
        if sel == {'VAR'}:
            st.raw[r] = 'ref'
        return True

    def rel_tagtag(self, st, pred, a, b):
        if pred not in ('eq', 'ne'):
            return True
        ka = self.tagset(st, a)
        kb = self.tagset(st, b)
        if pred == 'eq':
            both = ka & kb
            if not both:
                return False
            return self.tag_is(st, a[1], a[2], both, True) and self.tag_is(st, b[1], b[2], both, True)
        if len(ka) == 1 and ka == kb:
            return False
        if len(kb) == 1:
            return self.tag_is(st, a[1], a[2], kb, False)
        if len(ka) == 1:
            return self.tag_is(st, b[1], b[2], ka, False)
        return True

    def tagset(self, st, a):
        t, r = a[1], a[2]
        s = self.status(st, r)
        k = self.kinds(st, t)
        if s == 'der':
            return k
        if s in ('self', 'ref'):
            return frozenset(['VAR'])
        if s == 'non':
            return k - {'VAR'}
        return (k - {'VAR'}) | {'VAR'}

    def rel_word(self, st, pred, a, b):
        t, r = a[1], a[2]
        s = self.status(st, r)
        eq = pred == 'eq'
        if isinstance(b, int):
            b = decode_const_word(b)
            if b is None:
                return not eq
        if b[0] == 'mk':
            kind = NUMTAG.get(b[1])
            if kind in ('ATM', 'INT'):
                if s in ('ref', 'self'):
                    return not eq
                if eq:
                    if s == 'any':
                        st.raw[r] = 'non'
                    if not self.set_kinds(st, t, frozenset([kind])):
                        return False
                    if kind == 'ATM':
                        n = self.atom_name(b[2])
                        return self.rel_atom(st, 'eq', t, n) if n else True
                    return self.rel(st, 'eq', ('s', ('int', t), 0), b[2])
                if s == 'any':
                    return True
                if kind == 'ATM':
                    n = self.atom_name(b[2])
                    if n is None:
                        return True
                    inc, exc = st.atoms.get(t, (None, frozenset()))
                    if self.kinds(st, t) == {'ATM'}:
                        return self.rel_atom(st, 'ne', t, n)
                    st.atoms[t] = (inc - {n} if inc is not None else None, exc | {n})
                    if inc is not None and not (inc - {n}):
                        return self.set_kinds(st, t, ALL - {'ATM'})
                    return True
                if isinstance(b[2], int):
                    if self.kinds(st, t) == {'INT'}:
                        return self.rel(st, 'ne', ('s', ('int', t), 0), b[2])
                return True
            return True
        if b[0] == 'w':
            t2, r2 = b[1], b[2]
            s2 = self.status(st, r2)
            if t == t2:
                if r == r2:
                    return eq
                if eq:
                    # two representations of the same term are equal: dereferencing reached a fixed point
                    if s in ('ref',) and s2 in ('any', 'ref') or s2 in ('ref',) and s == 'any':
                        if 'VAR' not in self.kinds(st, t):
                            return False
                        st.kinds[t] = frozenset(['VAR'])
                        st.raw[r] = 'self'
                        st.raw[r2] = 'self'
                        return True
                    return True
                if s in ('der', 'non', 'self') and s2 in ('der', 'non', 'self'):
                    return False
                return True
            if eq:
                if s in ('der', 'non') and s2 in ('der', 'non'):
                    return self.set_kinds(st, t, self.kinds(st, t2)) and self.set_kinds(st, t2, self.kinds(st, t))
                return True
            return True
        return True

    def atom_name(self, v):
        if isinstance(v, int):
            return atom_const_name(v)
        if v[0] == 'a':
            return v[1]
        return None

    def rel_atom(self, st, pred, t, n):
        inc, exc = st.atoms.get(t, (None, frozenset()))
        if pred == 'eq':
            if n in exc or (inc is not None and n not in inc):
                return False
            st.atoms[t] = (frozenset([n]), frozenset())
            return True
        if inc is not None:
            inc = inc - {n}
            if not inc:
                return False
            st.atoms[t] = (inc, exc)
        else:
            st.atoms[t] = (None, exc | {n})
        return True

    def rel_functor(self, st, pred, t, name, ar):
        inc, exc = st.fnc.get(t, (None, frozenset()))
        f = (name, ar)
        if pred == 'eq':
            if f in exc:
                return False
            if inc is not None:
                if not any(_fmatch(x, f) for x in inc):
                    return False
            st.fnc[t] = (frozenset([f]), frozenset())
            return True
        if inc is not None:
            inc = inc - {f}
            if not inc:
                return False
            st.fnc[t] = (inc, exc)
        else:
            st.fnc[t] = (None, exc | {f})
        return True

    def rel_fname(self, st, pred, t, n):
        inc, exc = st.fnc.get(t, (None, frozenset()))
        if inc is not None:
            i2 = frozenset(x for x in inc if (x[0] == n or x[0] is None) == (pred == 'eq') or x[0] is None)
            if not i2:
                return False
            st.fnc[t] = (i2, exc)
        return True

    def rel_arity(self, st, pred, t, n):
        inc, exc = st.fnc.get(t, (None, frozenset()))
        if inc is not None:
            i2 = frozenset(x for x in inc if _cmpc(pred if pred[0] != 'u' else 's' + pred[1:], x[1], n))
            if not i2:
                return False
            st.fnc[t] = (i2, exc)
        return True

    # ---------------------------------------------------------------- operands
    def ev(self, st, env, frame, o):
        if isinstance(o, int):
            return env[o]
        k = o[0]
        if k == 'c':
            return o[1]
        if k == 'g':
            n = o[1]
            u = frame.fn.unit
            if n in u.fns or (n in self.P.ext and n not in u.globals):
                return ('fn', n)
            if n in u.decls:
                return ('fn', n)
            g = u.globals.get(n)
            if g is not None and g['internal']:
                return ('p', ('g', u.rel, n), o[2])
            return ('p', ('g', None, n), o[2])
        if k == 'u':
            return self.fresh(st)
        if k == 'f':
            return ('f', o[1])
        if k == 'ce':
            vs = [self.ev(st, env, frame, x) for x in o[2]]
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return vs[0]
            if o[1] == 'gep' and vs[0][0] == 'p' and isinstance(vs[1], int):
                return ('p', vs[0][1], None if vs[0][2] is None else vs[0][2] + vs[1])
            return self.fresh(st)
        return self.fresh(st)

    # ---------------------------------------------------------------- memory
    def load_val(self, st, frame, ptr, ins):
        ty = ins[2]
        self.C.load(self, st, frame, ptr, ins)
        if isinstance(ptr, tuple):
            if ptr[0] == 'w':          # UnTag_REF(word): same term, another representation
                key = (('ref', ptr[1], ptr[2]), 0)
                v = st.mem.get(key)
                if v is None:
                    t, r = ptr[1], ptr[2]
                    s = self.status(st, r)
                    if s == 'self' or (r == 0 and self.kinds(st, t) == {'VAR'}):
                        return ptr
                    v = ('w', t, next(self.cnt))
                return v
            if ptr[0] == 'p':
                reg, off = ptr[1], ptr[2]
                if off is not None:
                    v = st.mem.get((reg, off))
                    if v is not None:
                        return v
                if self.load_hook is not None:
                    v = self.load_hook(st, reg, off, ins)
                    if v is not None:
                        return v
                if reg[0] == 'g' and off is not None:
                    v = self.load_global(st, reg, off, ins[5], ty)
                    if v is not None:
                        if not isinstance(v, int) and v[0] == 's':
                            st.mem[(reg, off)] = v
                        return v
                if reg[0] == 'h' and off is not None and ty in ('i64', 'p'):
                    t = reg[1]
                    ks = self.kinds(st, t)
                    if off == 0 and ks == {'STC'}:
                        v = ('fa', t)
                    elif ks <= {'LST', 'STC'}:
                        v = ('w', next(self.cnt), next(self.cnt))
                    else:
                        v = self.fresh(st, ty=ty)
                    st.mem[(reg, off)] = v
                    return v
                if reg[0] == 'h' and off is not None and ty == 'i32' and off == 4:
                    pass
                if reg[0] == 'h' and off is None and ty == 'i64':
                    return ('w', next(self.cnt), next(self.cnt))
                if reg[0] == 'terms' and ty == 'i64':
                    return ('w', next(self.cnt), next(self.cnt))
                if off is not None and ty != 'd':
                    v = self.fresh(st, ty=ty)
                    if reg[0] in ('al', 'g', 'o'):
                        st.mem[(reg, off)] = v
                    return v
        if ty in ('d', 'f', 'ld'):
            return ('fx', next(self.cnt))
        return self.fresh(st, ty=ty)

    def load_global(self, st, reg, off, size, ty):
        c = self.consts.get((reg[1], reg[2], off))
        if c is not None:
            return c
        if reg[1] is None:
            g = self.P.gext.get(reg[2])
        else:
            g = self.P.units[reg[1]].globals.get(reg[2])
        if g is None:
            return None
        if g['const'] and 'init' in g:
            for o, s, v in g['init']:
                if s == 's':
                    if o <= off < o + len(v) and size == 1:
                        return _sx(ord(v[off - o]), 8)
                elif o == off:
                    if v[0] == 'c':
                        return v[1]
                    if v[0] == 'g':
                        return ('p', ('g', reg[1] if reg[1] and v[1] in self.P.units[reg[1]].globals and self.P.units[reg[1]].globals[v[1]]['internal'] else None, v[1]), v[2])
        return None

    def store_val(self, st, frame, ptr, val, ins):
        self.C.store(self, st, frame, ptr, val, ins)
        if isinstance(ptr, tuple) and ptr[0] == 'p':
            reg, off = ptr[1], ptr[2]
            if off is None:
                for k in [k for k in st.mem if k[0] == reg]:
                    del st.mem[k]
            else:
                st.mem[(reg, off)] = val
        elif isinstance(ptr, tuple) and ptr[0] == 'w':
            t = ptr[1]
            # binding of a variable
            if self.bind_hook is not None and isinstance(val, tuple) and val[0] in ('mk', 'w'):
                self.bind_hook(st, t, val)
            else:
                self.on_bind(st)
                st.kinds.pop(t, None)
            for r in [r for r, s in st.raw.items() if s == 'self']:
                del st.raw[r]
        else:
            # unknown pointer: may alias escaped memory and globals whose address is taken
            for k in [k for k in st.mem if k[0] in st.esc or k[0][0] in ('o',)]:
                del st.mem[k]

    def escape(self, st, v):
        if isinstance(v, tuple) and v[0] == 'p' and v[1][0] in ('al', 'o') and v[1] not in st.esc:
            st.esc = st.esc | {v[1]}
        elif isinstance(v, tuple) and v[0] == 'mk':
            self.escape(st, v[2])

    def havoc(self, st, name, unit, args, binds=True):
        """effect of a call that is not interpreted"""
        for a in args:
            self.escape(st, a)
        m = self.mods.get(self.P.key(name, unit)) if name else None
        dead = []
        for k in st.mem:
            reg = k[0]
            kind = reg[0]
            if kind == 'g':
                if m is None:
                    if name is not None and name not in self.P.ext and self.P.key(name, unit)[0] is None:
                        continue     # libc: does not know our globals
                    dead.append(k)
                elif '*' in m or (reg[1], reg[2]) in m:
                    dead.append(k)
            elif kind == 'al' or kind == 'o':
                if reg in st.esc:
                    dead.append(k)
            elif kind == 'regs':
                if m is None or ('regs',) in m or '*' in m:
                    dead.append(k)
        for k in dead:
            del st.mem[k]
        if binds and (m is None and name in self.P.ext or m is not None and ('regs',) in m):
            self.binds(st)

    bind_hook = None
    load_hook = None

    def on_bind(self, st):
        pass

    def binds(self, st):
        self.on_bind(st)
        for t, k in list(st.kinds.items()):
            if 'VAR' in k or 'FDV' in k:
                if isinstance(t, str) and k == frozenset(['VAR']):
                    pass
                st.kinds.pop(t)
                st.fnc.pop(t, None)
        for r in [r for r, s in st.raw.items() if s == 'self']:
            del st.raw[r]
        for k in [k for k in st.mem if k[0][0] == 'ref']:
            del st.mem[k]

    # ---------------------------------------------------------------- execution
    def run(self, fn, args, st):
        fr = Frame(fn, self.fid(None, fn.name), None, (), 0, None)
        return self.exec_fn(fr, args, st)

    def fid(self, up, site):
        k = (up, site)
        if k not in self.fids:
            self.fids[k] = len(self.fids)
        return self.fids[k]

    def exec_fn(self, frame, args, st):
        fn = frame.fn
        env = {i: a for i, a in enumerate(args)}
        results = []
        visited = {}
        headstates = {}
        nvis = {}
        work = [(0, -1, env, st, {})]
        live = fn.live_in()
        heads = fn.heads
        blocks = fn.blocks
        while work:
            bi, pb, env, st, loops = work.pop()
            # phis
            blk = blocks[bi]
            i = 0
            if blk and blk[0][0] == 'phi':
                new = {}
                while i < len(blk) and blk[i][0] == 'phi':
                    ins = blk[i]
                    for b, o in ins[4]:
                        if b == pb:
                            new[ins[1]] = self.ev(st, env, frame, o)
                            break
                    i += 1
            else:
                new = {}
            lv = live[bi]
            env = {k: env[k] for k in lv if k in env}
            env.update(new)
            if bi in heads:
                if pb in heads[bi] and bi in loops:
                    ent = loops[bi]
                    hs = headstates[(bi, ent)]
                    key = st.auto
                    prev = hs.get(key)
                    if prev is None:
                        hs[key] = (env, st, 0)
                    else:
                        penv, pst, n = prev
                        if n >= 2:
                            env, st, changed = self.widen(penv, pst, env, st, n)
                            if not changed:
                                continue
                        hs[key] = (env, st, n + 1)
                        if n > 30:
                            raise Budget('loop does not converge in %s' % fn.name)
                else:
                    sig = self.canon(env, st, frame)
                    ent = (bi, sig)
                    if (bi, ent) in headstates:
                        continue
                    headstates[(bi, ent)] = {st.auto: (env, st, 0)}
                    loops = dict(loops)
                    loops[bi] = ent
            sig = self.canon(env, st, frame)
            vs = visited.setdefault(bi, set())
            lk = (sig, tuple(sorted((h, e[1]) for h, e in loops.items() if fn.dominates(h, bi)))) if False else sig
            if lk in vs:
                continue
            vs.add(lk)
            if len(vs) > self.maxblock and (len(fn.pred[bi]) > 1):
                # too many disjuncts: join
                env, st = self.join_many(bi, visited, nvis, env, st)
                sig = self.canon(env, st, frame)
                if sig in vs:
                    continue
                vs.add(sig)
            self.exec_block(frame, bi, i, env, st, loops, work, results)
        # forget the frame's allocas
        out = []
        seen = set()
        for rv, s in results:
            for k in [k for k in s.mem if k[0][0] == 'al' and k[0][1] == frame.fid]:
                del s.mem[k]
            if s.esc:
                s.esc = frozenset(e for e in s.esc if not (e[0] == 'al' and e[1] == frame.fid))
            if frame.up is not None:
                sig = self.canon({0: rv} if rv is not None else {}, s, frame)
                if sig in seen:
                    continue
                seen.add(sig)
            out.append((rv, s))
        return out

    def join_many(self, bi, visited, store, env, st):
        """cap on the number of disjuncts per block: widen against the previous overflow state"""
        prev = store.get((bi, st.auto))
        if prev is None:
            store[(bi, st.auto)] = (env, st, 0)
            return env, st
        penv, pst, n = prev
        e2, s2, ch = self.widen(penv, pst, env, st, 9)
        store[(bi, st.auto)] = (e2, s2, n + 1)
        return e2, s2

    def exec_block(self, frame, bi, i, env, st, loops, work, results):
        fn = frame.fn
        blk = fn.blocks[bi]
        n = len(blk)
        while i < n:
            ins = blk[i]
            op = ins[0]
            self.steps += 1
            if self.steps > self.budget:
                raise Budget('budget exceeded in %s' % fn.name)
            if op == 'call':
                outs = self.do_call(frame, env, st, ins, bi, i)
                if not outs:
                    return
                if len(outs) == 1:
                    rv, st = outs[0]
                    if ins[1] >= 0:
                        env[ins[1]] = rv if rv is not None else self.fresh(st, ty=ins[2])
                    i += 1
                    continue
                for rv, s in outs:
                    e = dict(env)
                    if ins[1] >= 0:
                        e[ins[1]] = rv if rv is not None else self.fresh(s, ty=ins[2])
                    self.exec_block(frame, bi, i + 1, e, s, loops, work, results)
                return
            if op == 'br':
                if len(ins) == 5:
                    work.append((ins[4], bi, env, st, loops))
                    return
                c = self.ev(st, env, frame, ins[4])
                if ins[5] == ins[6]:
                    work.append((ins[5], bi, env, st, loops))
                    return
                s2 = st.copy()
                if self.assume(s2, c, False):
                    s2.note((ins[3], fn.name, 0))
                    self.C.branch(self, s2, frame, ins, False)
                    work.append((ins[6], bi, dict(env), s2, loops))
                if self.assume(st, c, True):
                    st.note((ins[3], fn.name, 1))
                    self.C.branch(self, st, frame, ins, True)
                    work.append((ins[5], bi, env, st, loops))
                return
            if op == 'switch':
                v = self.ev(st, env, frame, ins[4])
                default = st.copy()
                ok = True
                bytarget = {}
                for cv, tb in ins[6]:
                    bytarget.setdefault(tb, []).append(cv)
                for tb, cvs in bytarget.items():
                    if isinstance(v, tuple) and v[0] == 't' and len(cvs) > 1:
                        s = st.copy()
                        if self.tag_is(s, v[1], v[2], frozenset(NUMTAG[x] for x in cvs if NUMTAG.get(x)), True):
                            s.note((ins[3], fn.name, cvs))
                            work.append((tb, bi, dict(env), s, loops))
                        continue
                    for cv in cvs:
                        s = st.copy()
                        if self.rel(s, 'eq', v, cv):
                            s.note((ins[3], fn.name, cv))
                            work.append((tb, bi, dict(env), s, loops))
                for cv, tb in ins[6]:
                    if not self.rel(default, 'ne', v, cv):
                        ok = False
                        break
                if ok:
                    default.note((ins[3], fn.name, 'default'))
                    work.append((ins[5], bi, dict(env), default, loops))
                return
            if op == 'ret':
                rv = self.ev(st, env, frame, ins[4][0]) if ins[4] else None
                results.append((rv, st))
                return
            if op == 'unreachable':
                return
            if op == 'store':
                v = self.ev(st, env, frame, ins[4])
                p = self.ev(st, env, frame, ins[5])
                self.store_val(st, frame, p, v, ins)
            elif op == 'select':
                c = self.ev(st, env, frame, ins[4][0])
                a = self.ev(st, env, frame, ins[4][1])
                b = self.ev(st, env, frame, ins[4][2])
                s2 = st.copy()
                if self.assume(s2, c, False):
                    e2 = dict(env)
                    e2[ins[1]] = b
                    self.exec_block(frame, bi, i + 1, e2, s2, loops, work, results)
                if not self.assume(st, c, True):
                    return
                env[ins[1]] = a
            else:
                env[ins[1]] = self.instr(frame, env, st, ins)
            i += 1

    # ---------------------------------------------------------------- plain instructions
    def instr(self, frame, env, st, ins):
        op = ins[0]
        ty = ins[2]
        if op == 'load':
            p = self.ev(st, env, frame, ins[4])
            return self.load_val(st, frame, p, ins)
        if op == 'alloca':
            return ('p', ('al', frame.fid, ins[1]), 0)
        if op == 'getelementptr':
            return self.gep(frame, env, st, ins)
        if op == 'icmp':
            a = self.ev(st, env, frame, ins[5])
            b = self.ev(st, env, frame, ins[6])
            c = ('c', ins[4], a, b)
            d = None
            if isinstance(a, int) and isinstance(b, int):
                return int(_cmpc(ins[4], a, b, width(ins[7])))
            return c
        if op == 'fcmp':
            return self.fresh(st, 0, 1)
        ops = [self.ev(st, env, frame, o) for o in ins[4]]
        if op in ('sext', 'zext', 'trunc'):
            return self.cast(st, op, ops[0], ins[5], ty)
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            return ops[0]
        if op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            return self.binop(frame, st, op, ops[0], ops[1], ty, ins)
        if ty in ('d', 'f', 'ld'):
            return ('fx', next(self.cnt))
        if op in ('fptosi', 'fptoui'):
            return self.fresh(st, ty=ty)
        if op == 'extractvalue':
            return self.fresh(st, ty=ty)
        return self.fresh(st, ty=ty)

    def gep(self, frame, env, st, ins):
        base = self.ev(st, env, frame, ins[4])
        off = ins[5]
        for o, sc in ins[6]:
            v = self.ev(st, env, frame, o)
            lo, hi = self.interval(st, v)
            if lo == hi and not (isinstance(v, tuple) and v[0] in ('a',)):
                off += lo * sc
            elif isinstance(base, tuple) and base[0] == 'p' and base[1][0] == 'g' and base[1][2] in ('pl_atom_tbl',):
                off = None
                break
            else:
                return self.gep_var(st, base, v, sc, ins, frame)
        if isinstance(base, tuple) and base[0] == 'p':
            if off is None or base[2] is None:
                return ('p', base[1], None)
            return ('p', base[1], base[2] + off)
        if isinstance(base, tuple) and base[0] == 'w':
            # pointer arithmetic on an untagged REF word
            if off == 0:
                return base
            return ('p', ('ref', base[1], base[2]), off)
        if isinstance(base, tuple) and base[0] == 's':
            if off == 0:
                return base
            return ('p', ('o', base[1], base[2]), off)
        return self.fresh(st)

    def gep_var(self, st, base, v, sc, ins, frame):
        if isinstance(base, tuple) and base[0] == 'p':
            return ('p', base[1], None)
        if isinstance(base, tuple) and base[0] == 's':
            return ('p', ('o', base[1], base[2]), None)
        return self.fresh(st)

    def cast(self, st, op, v, fty, tty):
        fw, tw = width(fty), width(tty)
        if isinstance(v, int):
            if op == 'zext':
                return v & ((1 << fw) - 1) if fw > 1 else (v & 1)
            if op == 'sext':
                return v if fw > 1 else (-1 if v else 0)
            return _sx(v, tw)
        k = v[0]
        if k in ('c', 'and', 'or', 'not'):
            if op == 'zext':
                return v
            if op == 'trunc':
                return v
            return self.fresh(st, -1, 0)
        if k in ('a', 't', 'fac', 'fa'):
            return v
        if k == 's':
            lo, hi = self.interval(st, v, fty)
            i = v[1]
            if isinstance(i, tuple) and i[0] in ('atm', 'fn', 'ar'):
                return v
            if op == 'sext':
                return v
            if op == 'zext':
                if lo >= 0:
                    return v
                return self.fresh(st, 0, (1 << fw) - 1, dfn=('cast', v, (0, (1 << fw) - 1)))
            tr = trange(tty) if tw > 1 else (0, 1)
            if tr[0] <= lo and hi <= tr[1]:
                return v
            self.C.overflow(self, st, None, ('trunc', fty, tty), lo, hi)
            return self.fresh(st, tr[0], tr[1], dfn=('cast', v, tr))
        if k in ('w', 'mk', 'p') and op in ('sext', 'zext') and fw == 64:
            return v
        if k == 'wv':
            return v
        return self.fresh(st, ty=tty)

    def binop(self, frame, st, op, a, b, ty, ins):
        w = width(ty)
        if isinstance(a, int) and isinstance(b, int):
            return _fold(op, a, b, w)
        if op in ('and', 'or', 'add', 'mul', 'xor') and isinstance(a, int):
            a, b = b, a
        ka = a[0] if not isinstance(a, int) else None
        kb = b[0] if not isinstance(b, int) else None
        # booleans
        if w == 1:
            if op == 'and':
                return ('and', a, b)
            if op == 'or':
                return ('or', a, b)
            if op == 'xor' and isinstance(b, int):
                return ('not', a) if b & 1 else a
            return self.fresh(st, 0, 1)
        if ka in ('c', 'and', 'or', 'not'):
            if op == 'xor' and b == 1:
                return ('not', a)
            if op == 'and' and b == 1:
                return a
            if op == 'and' and kb in ('c', 'and', 'or', 'not'):
                return ('and', a, b)
            if op == 'or' and kb in ('c', 'and', 'or', 'not'):
                return ('or', a, b)
            if op == 'sub' and False:
                pass
        # Prolog words
        if ka == 'w':
            if op == 'and' and b == 7:
                return ('t', a[1], a[2])
            if op == 'and' and b == -8:
                return ('p', ('h', a[1]), 0)
            if op == 'lshr' and b == 3:
                return ('s', ('atm', a[1]), 0)
            if op == 'ashr' and b == 3:
                return ('s', ('int', a[1]), 0)
            if op == 'shl' and b == 0:
                return a
            if op in ('add', 'sub', 'xor') and isinstance(b, int):
                kn = self.tagset(st, a)
                if len(kn) == 1 and op == 'sub' and b == TAGNUM[next(iter(kn))]:
                    return ('p', ('h', a[1]), 0)
            return self.fresh(st, ty=ty)
        if ka == 'mk':
            if op == 'and' and b == 7:
                return a[1]
            if op == 'and' and b == -8:
                return a[2]
            if op in ('lshr', 'ashr') and b == 3:
                return a[2]
            return self.fresh(st, ty=ty)
        if ka == 'sh3':       # value << 3, waiting for its tag
            if op in ('or', 'add') and isinstance(b, int) and 0 <= b <= 7:
                return ('mk', b, a[1])
            if op in ('ashr', 'lshr') and b == 3:
                return a[1]
            return self.fresh(st, ty=ty)
        if op == 'shl' and b == 3:
            if ka in ('s', 'a', 'c') or isinstance(a, int):
                if ka == 's':
                    lo, hi = self.interval(st, a)
                    if lo < INTLO or hi > INTHI:
                        self.C.overflow(self, st, frame, ins, lo, hi)
                return ('sh3', a)
        if isinstance(a, int) and op == 'or' and kb == 'sh3':
            return ('mk', a, b[1])
        if ka == 'p':
            if op in ('add', 'or') and isinstance(b, int) and 0 < b <= 7 and (a[2] is None or a[2] % 8 == 0) and w == 64:
                return ('mk', b, a)
            if op in ('add', 'sub') and isinstance(b, int):
                if a[2] is None:
                    return a
                return ('p', a[1], a[2] + (b if op == 'add' else -b))
            if op == 'sub' and kb == 'p' and a[1] == b[1] and a[2] is not None and b[2] is not None:
                return a[2] - b[2]
            if op == 'and' and b == -8:
                return a
            if op == 'and' and isinstance(b, int) and 0 < b <= 7:
                return 0
            return self.fresh(st, ty=ty)
        if ka == 'fa':
            if op == 'lshr' and b == ATOM_MAX_BITS:
                return ('s', ('ar', a[1]), 0)
            if op == 'and' and b == (1 << ATOM_MAX_BITS) - 1:
                return ('s', ('fn', a[1]), 0)
            return self.fresh(st, ty=ty)
        if ka == 'fac':
            if op == 'lshr' and b == ATOM_MAX_BITS:
                return a[2]
            if op == 'and' and b == (1 << ATOM_MAX_BITS) - 1:
                return ('a', a[1]) if a[1] is not None else self.fresh(st, 0, 1 << 40)
        if op == 'or' and ka == 'a' and isinstance(b, int) and b % (1 << ATOM_MAX_BITS) == 0:
            return ('fac', a[1], b >> ATOM_MAX_BITS)
        if op in ('or', 'add') and ka == 'a' and kb == 'shA':
            return ('fac?', a[1], b[1])
        if op == 'or' and ka == 's' and isinstance(b, int) and b >= (1 << ATOM_MAX_BITS) and b % (1 << ATOM_MAX_BITS) == 0:
            i = a[1]
            if isinstance(i, tuple) and i[0] == 'atm':
                inc = st.atoms.get(i[1], (None,))[0]
                if inc and len(inc) == 1:
                    return ('fac', next(iter(inc)), b >> ATOM_MAX_BITS)
            return self.fresh(st, ty=ty)
        if ka == 't':
            if op == 'and' and b == 7:
                return a
            return self.fresh(st, 0, 255, ty=ty)
        # integers
        la, ha = self.interval(st, a, ty) if ka else (a, a)
        lb, hb = self.interval(st, b, ty) if kb else (b, b)
        tr = trange(ty)
        if op in ('add', 'sub'):
            if op == 'add':
                lo, hi = la + lb, ha + hb
            else:
                lo, hi = la - hb, ha - lb
            if lo < tr[0] or hi > tr[1]:
                self.C.overflow(self, st, frame, ins, lo, hi)
                if isinstance(b, int) and ka == 's' and len(ins) > 5 and ins[5]:
                    return ('s', a[1], a[2] + (b if op == 'add' else -b))
                return self.fresh(st, max(lo, tr[0]), min(hi, tr[1]), dfn=None) if len(ins) > 5 and ins[5] else self.fresh(st, ty=ty)
            if isinstance(b, int) and ka == 's':
                return ('s', a[1], a[2] + (b if op == 'add' else -b))
            if isinstance(a, int) and kb == 's' and op == 'add':
                return ('s', b[1], b[2] + a)
            if op == 'sub' and ka == 's' and kb == 's' and a[1] == b[1]:
                return a[2] - b[2]
            if lo == hi:
                return lo
            return self.fresh(st, lo, hi)
        if op == 'mul':
            c = (la * lb, la * hb, ha * lb, ha * hb)
            lo, hi = min(c), max(c)
            if lo < tr[0] or hi > tr[1]:
                self.C.overflow(self, st, frame, ins, lo, hi)
                return self.fresh(st, ty=ty)
            return lo if lo == hi else self.fresh(st, lo, hi)
        if op == 'and':
            if isinstance(b, int):
                if b >= 0:
                    if la >= 0 and ha <= b and (b & (b + 1)) == 0:
                        return a
                    return self.fresh(st, 0, b if la < 0 else min(b, ha))
                if la >= 0:
                    return self.fresh(st, 0, ha)
            elif la >= 0 or lb >= 0:
                return self.fresh(st, 0, min(x for x, l in ((ha, la), (hb, lb)) if l >= 0))
            return self.fresh(st, ty=ty)
        if op in ('or', 'xor'):
            if la >= 0 and lb >= 0:
                m = (1 << max(ha.bit_length(), hb.bit_length())) - 1
                return self.fresh(st, max(la, lb) if op == 'or' else 0, m)
            return self.fresh(st, ty=ty)
        if op == 'shl':
            if isinstance(b, int) and 0 <= b < w:
                lo, hi = la << b, ha << b
                if lo < tr[0] or hi > tr[1]:
                    self.C.overflow(self, st, frame, ins, lo, hi)
                    if b == ATOM_MAX_BITS:
                        return ('shA', a)
                    return self.fresh(st, ty=ty)
                return lo if lo == hi else self.fresh(st, lo, hi)
            self.C.overflow(self, st, frame, ins, None, None)
            return self.fresh(st, ty=ty)
        if op in ('ashr', 'lshr'):
            if isinstance(b, int) and 0 <= b < w:
                if op == 'lshr' and la < 0:
                    return self.fresh(st, 0, ((1 << w) - 1) >> b)
                lo, hi = la >> b, ha >> b
                return lo if lo == hi else self.fresh(st, lo, hi)
            if la >= 0:
                return self.fresh(st, 0, ha)
            return self.fresh(st, ty=ty)
        if op in ('sdiv', 'udiv'):
            if isinstance(b, int) and b > 0 and (op == 'sdiv' or la >= 0):
                lo, hi = _tdiv(la, b), _tdiv(ha, b)
                return lo if lo == hi else self.fresh(st, lo, hi)
            if la >= 0 and lb >= 1:
                return self.fresh(st, 0, ha)
            return self.fresh(st, ty=ty)
        if op in ('srem', 'urem'):
            if isinstance(b, int) and b != 0:
                m = abs(b) - 1
                return self.fresh(st, 0 if la >= 0 or op == 'urem' else -m, m)
            return self.fresh(st, ty=ty)
        return self.fresh(st, ty=ty)

    # ---------------------------------------------------------------- calls
    def do_call(self, frame, env, st, ins, bi, idx):
        c = ins[4]
        name = None
        if isinstance(c, list) and c[0] == 'g':
            name = c[1]
        elif isinstance(c, int):
            v = env.get(c)
            if isinstance(v, tuple) and v[0] == 'fn':
                name = v[1]
        args = [self.ev(st, env, frame, a) for a in ins[5]]
        if name is not None and name.startswith('llvm.'):
            return [(self.intrinsic(st, name, args, ins), st)]
        r = self.C.call(self, st, frame, name, args, ins)
        if r is not None:
            return r
        if name is None:
            self.havoc(st, None, frame.fn.unit, args)
            return [(None, st)]
        fn = self.P.fn(name, frame.fn.unit)
        x = self.C.expand(name) if fn is None else None
        if x is not None:
            # a function generated from a specification: what it does to its arguments, in order
            lv = self.live_after(frame.fn, bi, idx)
            roots = frame.roots + tuple(env[k] for k in sorted(lv) if k in env) + tuple(args)
            sts = [st]
            for n, (cn, i, extra) in enumerate(x):
                f2 = Frame(self.P.need(cn), self.fid(frame.fid, (name, bi, idx, n)), frame, roots, frame.depth + 1, ins)
                sts = [s for s0 in sts for _, s in self.exec_fn(f2, [args[i]] + extra, s0)]
            out = []
            for s in sts:
                self.binds(s)
                out.append((0, s.copy()))
                out.append((1, s))
            return out
        if self.P.is_noreturn(name, frame.fn.unit):
            self.throws.append((name, args, st, frame, ins))
            return []
        if ins[6]:
            self.throws.append((name, args, st, frame, ins))
            return []
        if fn is not None and frame.depth < self.C.maxdepth and not self.recursive(frame, fn) \
                and fn.ninstr() <= self.C.inline_limit and self.C.inline(self, name, fn, frame) and not fn.varargs:
            lv = self.live_after(frame.fn, bi, idx)
            roots = frame.roots + tuple(env[k] for k in sorted(lv) if k in env)
            f2 = Frame(fn, self.fid(frame.fid, (name, bi, idx)), frame, roots, frame.depth + 1, ins)
            for a in args:
                if isinstance(a, tuple) and a[0] == 'p' and a[1][0] == 'al':
                    pass
            if len(args) != len(fn.args):
                args = (args + [self.fresh(st) for _ in fn.args])[:len(fn.args)]
            if self.sublimit and not self.P.may_throw(name, frame.fn.unit):
                if fn in self.blown:
                    self.havoc(st, name, frame.fn.unit, args)
                    return [(None, st)]
                save = st.copy()
                b0, nt = self.budget, len(self.throws)
                self.budget = min(b0, self.steps + self.sublimit)
                try:
                    return self.exec_fn(f2, args, st)
                except Budget:
                    if self.steps > b0:
                        raise
                    del self.throws[nt:]
                    self.blown.add(fn)
                    self.havoc(save, name, frame.fn.unit, args)
                    return [(None, save)]
                finally:
                    self.budget = b0
            return self.exec_fn(f2, args, st)
        self.havoc(st, name, frame.fn.unit, args)
        return [(None, st)]

    def recursive(self, frame, fn):
        f = frame
        while f is not None:
            if f.fn is fn:
                return True
            f = f.up
        return False

    _la = {}

    def live_after(self, fn, bi, idx):
        k = (id(fn), bi, idx)
        v = self._la.get(k)
        if v is None:
            s = set()
            for ins in fn.blocks[bi][idx + 1:]:
                s.update(ir.instr_uses(ins))
            for sb in fn.succ[bi]:
                s |= fn.live_in()[sb]
                for ins in fn.blocks[sb]:
                    if ins[0] != 'phi':
                        break
                    for pb, o in ins[4]:
                        if pb == bi:
                            s.update(ir.opnds_of(o))
            v = frozenset(s)
            self._la[k] = v
        return v

    def intrinsic(self, st, name, args, ins):
        if name.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            p = args[0]
            if isinstance(p, tuple) and p[0] == 'p':
                for k in [k for k in st.mem if k[0] == p[1]]:
                    del st.mem[k]
            return None
        if name.startswith('llvm.abs'):
            lo, hi = self.interval(st, args[0], ins[2])
            return self.fresh(st, 0, max(abs(lo), abs(hi)))
        if name.startswith('llvm.expect'):
            return args[0]
        if ins[2] in ('d', 'f', 'ld'):
            return ('fx', next(self.cnt))
        if ins[1] >= 0:
            return self.fresh(st, ty=ins[2])
        return None

    # ---------------------------------------------------------------- canonical form
    def canon(self, env, st, frame):
        ren = {}
        out = []
        todo = []
        seen_t = set()

        def nm(i):
            if isinstance(i, int):
                j = ren.get(i)
                if j is None:
                    j = ren[i] = len(ren)
                    todo.append(i)
                return j
            if isinstance(i, tuple) and len(i) == 2 and i[0] in ('int', 'atm', 'fn', 'ar'):
                return (i[0], nm(i[1]))
            if i not in ren:
                ren[i] = i
                todo.append(i)
            return i

        def val(v):
            if isinstance(v, int):
                return v
            k = v[0]
            if k == 's':
                i = v[1]
                r = ('s', nm(i), v[2])
                if isinstance(i, tuple) and i not in ren:
                    ren[i] = i
                    todo.append(i)
                return r
            if k == 'w' or k == 't':
                return (k, nm(v[1]), nm(v[2]) if v[2] else 0)
            if k == 'p':
                return ('p', reg(v[1]), v[2])
            if k == 'mk':
                return ('mk', v[1], val(v[2]))
            if k == 'c':
                return ('c', v[1], val(v[2]), val(v[3]))
            if k in ('and', 'or'):
                return (k, val(v[1]), val(v[2]))
            if k in ('not', 'sh3', 'shA'):
                return (k, val(v[1]))
            if k == 'fa':
                return ('fa', nm(v[1]))
            if k == 'fx':
                return 'fx'
            return v

        def reg(r):
            k = r[0]
            if k == 'h':
                return ('h', nm(r[1]))
            if k == 'ref':
                return ('ref', nm(r[1]), nm(r[2]) if r[2] else 0)
            if k == 'o':
                return ('o', nm(r[1]), r[2])
            return r

        for k in sorted(env):
            out.append((k, val(env[k])))
        for v in frame.roots:
            if v is not None:
                out.append(val(v))
        hreg = {}
        later = []
        for k, v in st.mem.items():
            r = k[0][0]
            if r in ('h', 'ref', 'o'):
                hreg.setdefault(k[0][1], []).append((k, v))
            else:
                later.append((k, v))
        later.sort(key=lambda x: repr(x[0]))
        for k, v in later:
            out.append((k, val(v)))
        out.append(self.auto_canon(st.auto, val))
        while todo:
            i = todo.pop(0)
            rec = []
            if i in st.rng:
                rec.append(st.rng[i])
            if i in st.ne:
                rec.append(('ne', st.ne[i]))
            d = st.dfn.get(i)
            if d is not None:
                rec.append((d[0], val(d[1])))
            if i in st.kinds:
                rec.append(st.kinds[i])
            if i in st.atoms:
                rec.append(('at', st.atoms[i]))
            if i in st.fnc:
                rec.append(('f', st.fnc[i]))
            if i in st.raw:
                rec.append(st.raw[i])
            for x in (('int', i),):
                if x in st.rng:
                    rec.append(('int', st.rng[x]))
                if x in st.ne:
                    rec.append(('intne', st.ne[x]))
            if i in hreg:
                for k, v in sorted(hreg.pop(i), key=lambda x: repr(x[0][1])):
                    rec.append((reg(k[0]), k[1], val(v)))
            if rec:
                out.append((ren[i] if not isinstance(i, tuple) else i, tuple(rec)))
        return hash(tuple(out))

    def auto_canon(self, a, val):
        return a

    # ---------------------------------------------------------------- widening
    def widen(self, e1, s1, e2, s2, n):
        """upper bound of two states at the same point; returns (env, st, changed)"""
        st = s2.copy()
        changed = False
        memo = {}
        hard = n >= 4

        def facts_t(t1, t2):
            nonlocal changed
            k1, k2 = self.kinds(s1, t1), self.kinds(s2, t2)
            a1, a2 = s1.atoms.get(t1), s2.atoms.get(t2)
            f1, f2 = s1.fnc.get(t1), s2.fnc.get(t2)
            k = k1 | k2
            if k != k1:
                changed = True
            return k, a1 if a1 == a2 else None, f1 if f1 == f2 else None, a1, f1

        def jv(v1, v2):
            nonlocal changed
            key = (v1, v2)
            if key in memo:
                return memo[key]
            r = jv0(v1, v2)
            memo[key] = r
            return r

        def jv0(v1, v2):
            nonlocal changed
            if v1 is None or v2 is None:
                return v2
            if isinstance(v1, tuple) and isinstance(v2, tuple) and v1[0] == 'w' and v2[0] == 'w':
                t1, r1, t2, r2 = v1[1], v1[2], v2[1], v2[2]
                if t1 == t2:
                    # same term
                    k, a, f, a1, f1 = facts_t(t1, t2)
                    if k != self.kinds(st, t1):
                        st.kinds[t1] = k
                    if a1 != st.atoms.get(t1):
                        if a is None and a1 is not None:
                            changed = True
                        st.atoms.pop(t1, None) if a is None else st.atoms.__setitem__(t1, a)
                    if f1 != st.fnc.get(t1):
                        if f is None and f1 is not None:
                            changed = True
                        st.fnc.pop(t1, None) if f is None else st.fnc.__setitem__(t1, f)
                    x1, x2 = self.status(s1, r1), self.status(s2, r2)
                    if x1 == x2 or (x1 in ('der',) and x2 in ('non', 'self')):
                        return ('w', t1, r2)
                    if x1 != 'any':
                        changed = True
                    return ('w', t1, next(self.cnt))
                nt = next(self.cnt)
                k, a, f, a1, f1 = facts_t(t1, t2)
                st.kinds[nt] = k
                if a is not None:
                    st.atoms[nt] = a
                elif a1 is not None:
                    changed = True
                if f is not None:
                    st.fnc[nt] = f
                elif f1 is not None:
                    changed = True
                i1, i2 = s1.rng.get(('int', t1)), s2.rng.get(('int', t2))
                if i1 and i2:
                    st.rng[('int', nt)] = self.wr(i1, i2, hard)
                    if st.rng[('int', nt)] != i1:
                        changed = True
                elif i1:
                    changed = True
                if isinstance(t1, str):
                    changed = True
                x1, x2 = self.status(s1, r1), self.status(s2, r2)
                nr = next(self.cnt)
                if x1 == x2:
                    if x1 == 'der':
                        nr = 0
                    elif x1 != 'any':
                        st.raw[nr] = x1
                elif x1 != 'any':
                    changed = True
                return ('w', nt, nr)
            if v1 == v2:
                if isinstance(v1, tuple):
                    if v1[0] == 's':
                        i1, i2 = self.interval(s1, v1), self.interval(s2, v2)
                        if i1 != i2:
                            nr = self.wr(i1, i2, hard)
                            if nr != i1:
                                changed = True
                            st.rng[v1[1]] = (nr[0] - v1[2], nr[1] - v1[2])
                        n1, n2 = s1.ne.get(v1[1]), s2.ne.get(v2[1])
                        if n1 != n2:
                            if n1 and (not n2 or not n1 <= n2):
                                changed = True
                            nn = (n1 or frozenset()) & (n2 or frozenset())
                            st.ne[v1[1]] = nn
                            if not nn:
                                st.ne.pop(v1[1])
                    elif v1[0] in ('t', 'fa'):
                        jv(('w', v1[1], v1[2] if v1[0] == 't' else 0), ('w', v2[1], v2[2] if v1[0] == 't' else 0))
                    elif v1[0] == 'p' and v1[1][0] == 'h':
                        jv(('w', v1[1][1], 0), ('w', v2[1][1], 0))
                return v2
            if isinstance(v1, tuple) and isinstance(v2, tuple) and v1[0] == v2[0]:
                if v1[0] == 'p':
                    if v1[1] == v2[1]:
                        if v1[2] is not None:
                            changed = True
                        return ('p', v1[1], None)
                    if v1[1][0] == 'h' and v2[1][0] == 'h':
                        w = jv(('w', v1[1][1], 0), ('w', v2[1][1], 0))
                        if v1[2] != v2[2] and v1[2] is not None:
                            changed = True
                        return ('p', ('h', w[1]), v1[2] if v1[2] == v2[2] else None)
                    if v1[1][0] == 'o' and v2[1][0] == 'o':
                        if isinstance(v1[1][1], int):
                            o1 = ('o', next(self.cnt), 0)
                            if v1[2] is not None and v1[2] != v2[2]:
                                changed = True
                            return ('p', o1, v1[2] if v1[2] == v2[2] else None)
                    changed = True
                    return self.fresh(st)
                if v1[0] == 't':
                    w = jv(('w', v1[1], v1[2]), ('w', v2[1], v2[2]))
                    return ('t', w[1], w[2])
                if v1[0] == 'fa':
                    w = jv(('w', v1[1], 0), ('w', v2[1], 0))
                    return ('fa', w[1])
                if v1[0] == 'mk' and v1[1] == v2[1]:
                    return ('mk', v1[1], jv(v1[2], v2[2]))
                if v1[0] == 'fx':
                    return v2
            if (isinstance(v1, int) or v1[0] == 's') and (isinstance(v2, int) or v2[0] == 's'):
                i1, i2 = self.interval(s1, v1), self.interval(s2, v2)
                nr = self.wr(i1, i2, hard)
                d1 = s1.dfn.get(v1[1]) if not isinstance(v1, int) else None
                if nr != i1 or isinstance(v1, int) or isinstance(v1[1], tuple):
                    changed = True
                r = self.fresh(st, nr[0], nr[1])
                if not isinstance(v1, int) and not isinstance(v2, int):
                    n1 = frozenset(x + v1[2] for x in s1.ne.get(v1[1], ()))
                    n2 = frozenset(x + v2[2] for x in s2.ne.get(v2[1], ()))
                    nn = n1 & n2
                    if nn:
                        st.ne[r[1]] = nn
                    if n1 != nn:
                        changed = True
                return r
            if isinstance(v1, tuple) and v1[0] == 's' and isinstance(v1[1], int) and self.interval(s1, v1) == I64 and not s1.ne.get(v1[1]):
                return self.fresh(st)
            changed = True
            # mixed kinds of values: a term word joined with a built word stays a term
            def asterm(v):
                if isinstance(v, tuple) and v[0] in ('w', 'mk'):
                    return True
                return isinstance(v, int) and decode_const_word(v) is not None
            if asterm(v1) and asterm(v2) and (isinstance(v1, tuple) or isinstance(v2, tuple)):
                return ('w', next(self.cnt), next(self.cnt))
            return self.fresh(st)

        env = {}
        for k in e2:
            env[k] = jv(e1.get(k), e2[k])
        mem = {}
        for k, v in s2.mem.items():
            if k in s1.mem:
                mem[k] = jv(s1.mem[k], v)
        for k in s1.mem:
            if k not in mem and k[0][0] in ('g', 'al', 'regs'):
                changed = True
        st.mem = mem
        st.esc = s1.esc | s2.esc
        return env, st, changed

    def wr(self, i1, i2, hard):
        lo = i1[0] if i2[0] >= i1[0] else (_down(i2[0]) if not hard else -(1 << 63))
        hi = i1[1] if i2[1] <= i1[1] else (_up(i2[1]) if not hard else (1 << 63) - 1)
        return (lo, hi)


_TH = sorted({0, 1, -1, 2, 255, 256, 32767, (1 << 31) - 1, -(1 << 31), INTLO, INTHI, I64[0], I64[1]})


def _up(x):
    for t in _TH:
        if t >= x:
            return t
    return I64[1]


def _down(x):
    for t in reversed(_TH):
        if t <= x:
            return t
    return I64[0]


def _fmatch(x, f):
    return (x[0] == f[0] or x[0] is None or f[0] is None) and (x[1] == f[1] or x[1] is None)


def _sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w > 1 and v >> (w - 1) else v


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def _cmpc(pred, a, b, w=64):
    if pred == 'eq':
        return a == b
    if pred == 'ne':
        return a != b
    if pred[0] == 'u':
        m = (1 << w) - 1
        a &= m
        b &= m
    p = pred[1:]
    return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b


def _fold(op, a, b, w):
    m = (1 << w) - 1
    ua, ub = a & m, b & m
    if op == 'add':
        r = a + b
    elif op == 'sub':
        r = a - b
    elif op == 'mul':
        r = a * b
    elif op == 'and':
        r = ua & ub
    elif op == 'or':
        r = ua | ub
    elif op == 'xor':
        r = ua ^ ub
    elif op == 'shl':
        r = ua << ub if ub < w else 0
    elif op == 'lshr':
        r = ua >> ub if ub < w else 0
    elif op == 'ashr':
        r = a >> ub if ub < w else (-1 if a < 0 else 0)
    elif op == 'sdiv':
        r = _tdiv(a, b) if b else 0
    elif op == 'udiv':
        r = ua // ub if ub else 0
    elif op == 'srem':
        r = a - b * _tdiv(a, b) if b else 0
    else:
        r = ua % ub if ub else 0
    return _sx(r, w)


def atom_const_name(i):
    if 0 <= i < 256:
        return chr(i)
    if i == 256:
        return '[]'
    return None


def decode_const_word(c):
    t = c & 7
    if t == 3 and 0 <= (c >> 3) <= 256:
        return ('mk', 3, c >> 3)
    if t == 7:
        return ('mk', 7, c >> 3)
    return None


# ------------------------------------------------------------------ program-wide facts
def const_globals(prog):
    """globals assigned exactly once in the whole program with an atom / functor / constant:
    (unit|None, name, off) -> abstract value"""
    if hasattr(prog, '_consts'):
        return prog._consts
    stores = {}
    bad = set()
    for f in prog.allfns():
        for b in f.blocks:
            for ins in b:
                if ins[0] == 'store':
                    p = ins[5]
                    if isinstance(p, list) and p[0] == 'g':
                        g = f.unit.globals.get(p[1])
                        key = (f.unit.rel if g and g['internal'] else None, p[1], p[2])
                        stores.setdefault(key, []).append((f, ins))
                    elif isinstance(p, int):
                        # variable offset into a global array
                        d = f.defs.get(p)
                        if d and d[1][0] == 'getelementptr':
                            bb = d[1][4]
                            if isinstance(bb, list) and bb[0] == 'g':
                                bad.add(bb[1])
    res = {}

    def atom_of(f, o, depth=0):
        if depth > 8:
            return None
        if isinstance(o, list):
            if o[0] == 'c':
                return o[1]
            return None
        d = f.defs.get(o)
        if d is None:
            return None
        ins = d[1]
        if ins[0] == 'call':
            c = ir.callee(ins)
            if c in ('Pl_Create_Atom', 'Pl_Create_Allocate_Atom') and isinstance(ins[5][0], list) and ins[5][0][0] == 'g':
                s = string_of(f.unit, ins[5][0])
                if s is not None:
                    return ('a', s)
            return None
        if ins[0] in ('zext', 'sext'):
            return atom_of(f, ins[4][0], depth + 1)
        if ins[0] == 'load' and isinstance(ins[4], list) and ins[4][0] == 'g':
            g = f.unit.globals.get(ins[4][1])
            return res.get((f.unit.rel if g and g['internal'] else None, ins[4][1], ins[4][2]))
        if ins[0] in ('or', 'add'):
            a = atom_of(f, ins[4][0], depth + 1)
            b = atom_of(f, ins[4][1], depth + 1)
            if isinstance(a, int):
                a, b = b, a
            if isinstance(a, tuple) and isinstance(b, int):
                if a[0] == 'a' and b > 0 and b % (1 << ATOM_MAX_BITS) == 0:
                    return ('fac', a[1], b >> ATOM_MAX_BITS)
                if a[0] == 'sh3' and 0 <= b <= 7:
                    return ('mk', b, a[1])
            if isinstance(a, int) and isinstance(b, int):
                v = a | b if ins[0] == 'or' else a + b
                return v
            return None
        if ins[0] == 'shl' and ins[4][1] == ['c', 3]:
            a = atom_of(f, ins[4][0], depth + 1)
            if isinstance(a, tuple) and a[0] == 'a':
                return ('sh3', a)
        return None

    for _ in range(3):
        for key, ss in stores.items():
            if len(ss) == 1 and key[1] not in bad and key not in res:
                f, ins = ss[0]
                v = atom_of(f, ins[4])
                if isinstance(v, tuple) and v[0] in ('a', 'fac', 'mk'):
                    res[key] = v
                elif isinstance(v, int) and v >= (1 << ATOM_MAX_BITS):
                    n = atom_const_name(v & ((1 << ATOM_MAX_BITS) - 1))
                    if n is not None:
                        res[key] = ('fac', n, v >> ATOM_MAX_BITS)
    prog._consts = res
    return res


def string_of(unit, o):
    """text of a string literal operand"""
    if not (isinstance(o, list) and o[0] == 'g'):
        return None
    g = unit.globals.get(o[1])
    if g is None or 'init' not in g or not g['const']:
        return None
    if not g['init']:
        return ''
    for off, s, v in g['init']:
        if s == 's' and off <= o[2] < off + len(v) + 1:
            t = v[o[2] - off:]
            return t.split('\0')[0]
    return None


def mod_sets(prog):
    """for every function: the globals it may write (transitively); ('regs',) the WAM register bank;
    '*' when it calls through an unresolved pointer"""
    if hasattr(prog, '_mods'):
        return prog._mods
    direct = {}
    calls = {}
    for f in prog.allfns():
        k = prog.key(f.name, f.unit) if prog.fn(f.name, f.unit) is f else (f.unit.rel, f.name)
        m = set()
        cs = set()
        for b in f.blocks:
            for ins in b:
                if ins[0] == 'store':
                    root = root_of(f, ins[5])
                    if root is not None:
                        m.add(root)
                    else:
                        m.add(('ptr',))
                elif ins[0] == 'call':
                    c = ir.callee(ins)
                    if c is None:
                        if isinstance(ins[4], int):
                            m.add(('ind',))
                    elif not c.startswith('llvm.'):
                        cs.add(prog.key(c, f.unit))
                    for a in ins[5]:
                        if isinstance(a, list) and a[0] == 'g':
                            g = f.unit.globals.get(a[1])
                            if g is not None and not g['const']:
                                m.add((f.unit.rel if g['internal'] else None, a[1]))
        direct[k] = m
        calls[k] = cs
    ch = True
    while ch:
        ch = False
        for k, cs in calls.items():
            m = direct[k]
            n = len(m)
            for c in cs:
                if c in direct:
                    m |= direct[c]
            if len(m) != n:
                ch = True
    prog._mods = direct
    return direct


def root_of(f, o, depth=0):
    """global a pointer operand is based on"""
    if isinstance(o, list):
        if o[0] == 'g':
            g = f.unit.globals.get(o[1])
            return (f.unit.rel if g and g['internal'] else None, o[1])
        return None
    if depth > 10:
        return None
    d = f.defs.get(o)
    if d is None:
        return None
    ins = d[1]
    if ins[0] == 'getelementptr':
        return root_of(f, ins[4], depth + 1)
    if ins[0] == 'alloca':
        return ('local',)
    if ins[0] == 'load' and isinstance(ins[4], list) and ins[4][0] == 'g' and ins[4][1] == 'pl_reg_bank':
        return ('regs',)
    return None

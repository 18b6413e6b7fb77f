"""Abstract interpretation of the Prolog library clauses, on top of the C-level interpreter.

A Prolog goal is explored with success continuations over abstract terms (same State as absint): head
unification and the control constructs split states, C built-ins are interpreted by absint.Engine, and
every exception is recorded as an abstract error term.  Nothing is executed."""
import glob
import os
import re

from . import absint, ir, plread, prep
from .absint import ALL, Budget
from .plread import A, C, S, V
from .prep import AnalysisBroken

BC = (('bc',), 0)      # depth of the deepest choice in force when a binding was last made
CD = (('cd',), 0)      # current choice depth
IMP = (('imp',), 0)    # ('imp', reason): the path went through something not interpreted
BIP = (('bip',), 0)    # ('bip', name, arity) recorded by set_bip_name
CBIP = (('cbip',), 0)  # same, set from C

CONTROL = {(',', 2), (';', 2), ('->', 2), ('*->', 2), ('\\+', 1), ('!', 0)}


class Library:
    """all library clauses, the inline C table, and the C-visible error predicates"""

    def __init__(self):
        self.preds = {}
        self.file = {}
        self.nclauses = 0
        self.files = []
        for d in ('BipsPl', 'BipsFD'):
            for p in sorted(glob.glob(os.path.join(prep.SRC, d, '*.pl'))):
                b = os.path.basename(p)
                if b in ('t.pl', 'all_pl_bips.pl', 'all_fd_bips.pl', 'no_le_interf.pl', 'no_sockets.pl'):
                    continue
                f = plread.PlFile(p)
                self.files.append((p, f))
                for k, cl in f.preds.items():
                    self.nclauses += len(cl)
                    self.preds.setdefault(k, []).extend(cl)
                    self.file.setdefault(k, os.path.relpath(p, prep.REPO))
        cg = plread.PlFile(os.path.join(prep.SRC, 'Pl2Wam', 'code_gen.pl'))
        self.code_gen = cg
        self.inline = {}
        for cl in cg.preds.get(('c_fct_name', 4), ()):
            a = cl.head.args
            name = a[0].name if isinstance(a[0], A) else None
            self.inline[(name, a[1])] = (a[2].name, a[3].name)
        if len(self.inline) < 40:
            raise AnalysisBroken('the compiler\'s table of inline C predicates was not found')


_lib = None


def library():
    global _lib
    if _lib is None:
        _lib = Library()
    return _lib


class PClient(absint.Client):
    maxdepth = 10
    inline_limit = 900

    def __init__(self, owner):
        self.o = owner
        self._in = {}

    def inline(self, eng, name, fn, frame):
        r = self._in.get(fn)
        if r is None:
            r = True
            if not eng.P.may_throw(name, frame.fn.unit) and fn.ninstr() > 25 and \
                    not any('WamWord' in t for t in fn.cty):
                r = False
            self._in[fn] = r
        return r

    def expand(self, name):
        return fd_expansion(name)

    def call(self, eng, st, frame, name, args, ins):
        if name is None:
            return None
        m = self.o.cmodel(name)
        if m is not None:
            return m(eng, st, frame, args, ins)
        return None


class Interp:
    def __init__(self, prog=None, lib=None, budget=400000, extern=None):
        self.P = prog or ir.program()
        self.L = lib or library()
        self.eng = absint.Engine(self.P, PClient(self), budget)
        self.eng.sublimit = 4000
        self.eng.on_bind = self.on_bind
        self.eng.bind_hook = self.bind
        self.cnt = self.eng.cnt
        self.fid = 0
        self.errfns = error_functions(self.P)
        self.models = {'Pl_Set_C_Bip_Name': self.m_set_c_bip, 'Pl_Unset_C_Bip_Name': self.m_unset_c_bip,
                       'Pl_Unify': self.m_unify, 'Pl_Set_Bip_Name_Untagged_2': self.m_setbip_u,
                       'Pl_Create_Allocate_Atom': self.m_atom, 'Pl_Create_Atom': self.m_atom,
                       'Pl_Rd_C_Int_Check': None}
        self.models = {k: v for k, v in self.models.items() if v}
        self.maxrec = 2
        self.maxsteps = 6000
        self.dummy = absint.Frame(None, 0, None, (), 0, None)

    def cmodel(self, name):
        return self.models.get(name)

    # ------------------------------------------------------------------ C models
    def cstr(self, v):
        if isinstance(v, tuple) and v[0] == 'p' and v[1][0] == 'g':
            u = v[1][1]
            n = v[1][2]
            units = [self.P.units[u]] if u else self.P.units.values()
            for un in units:
                if n in un.globals:
                    return absint.string_of(un, ['g', n, v[2] or 0])
        return None

    def m_set_c_bip(self, eng, st, frame, args, ins):
        st.mem[CBIP] = ('bip', self.cstr(args[0]), args[1])
        return [(None, st)]

    def m_unset_c_bip(self, eng, st, frame, args, ins):
        st.mem.pop(CBIP, None)
        return [(None, st)]

    def m_setbip_u(self, eng, st, frame, args, ins):
        st.mem[BIP] = ('bip', args[0][1] if isinstance(args[0], tuple) and args[0][0] == 'a' else args[0], args[1])
        st.mem.pop(CBIP, None)
        return [(None, st)]

    def m_atom(self, eng, st, frame, args, ins):
        s = self.cstr(args[0])
        if s is not None:
            return [(('a', s), st)]
        return [(eng.fresh(st, 256, (1 << 24) - 1), st)]

    def m_unify(self, eng, st, frame, args, ins):
        return [(1 if ok else 0, s) for ok, s in self.unify(st, args[0], args[1])]

    def on_bind(self, st):
        st.mem[BC] = max(st.mem.get(BC, 0), st.mem.get(CD, 0)) if isinstance(st.mem.get(BC, 0), int) else 1 << 30

    # ------------------------------------------------------------------ terms
    def newvar(self, st):
        t = next(self.cnt)
        st.kinds[t] = frozenset(['VAR'])
        return ('w', t, next(self.cnt))

    def newstruct(self, st, name, args):
        t = next(self.cnt)
        self.setstruct(st, t, name, args)
        return ('w', t, next(self.cnt))

    def setstruct(self, st, t, name, args):
        if name == '.' and len(args) == 2:
            st.kinds[t] = frozenset(['LST'])
            base = 0
        else:
            st.kinds[t] = frozenset(['STC'])
            st.fnc[t] = (frozenset([(name, len(args))]), frozenset())
            st.mem[(('h', t), 0)] = ('fa', t)
            base = 8
        for i, a in enumerate(args):
            st.mem[(('h', t), base + 8 * i)] = a

    def arg(self, st, t, i, lst=False):
        k = (('h', t), (0 if lst else 8) + 8 * i)
        v = st.mem.get(k)
        if v is None:
            v = st.mem[k] = ('w', next(self.cnt), next(self.cnt))
        return v

    def atomw(self, n):
        return ('mk', 3, ('a', n))

    def build(self, st, t, fid):
        """word of a source term under Prolog frame fid"""
        if isinstance(t, V):
            while fid[0] == 'ite':
                fid = fid[1]
            k = (('pl', fid), t.id)
            w = st.mem.get(k)
            if w is None:
                w = st.mem[k] = self.newvar(st)
            return w
        if isinstance(t, A):
            return self.atomw(t.name)
        if isinstance(t, bool):
            raise AnalysisBroken('bad term')
        if isinstance(t, int):
            return ('mk', 7, t)
        if isinstance(t, float):
            tt = next(self.cnt)
            st.kinds[tt] = frozenset(['FLT'])
            return ('w', tt, next(self.cnt))
        if isinstance(t, S):
            tt = next(self.cnt)
            st.kinds[tt] = frozenset(['LST'])
            return ('w', tt, next(self.cnt))
        if isinstance(t, C):
            return self.newstruct(st, t.name, [self.build(st, a, fid) for a in t.args])
        raise AnalysisBroken('term %r' % (t,))

    def kinds(self, st, w):
        if w[0] == 'mk':
            return frozenset([absint.NUMTAG[w[1]]]) if absint.NUMTAG.get(w[1]) else ALL
        if w[0] == 'w':
            return self.eng.kinds(st, w[1])
        return ALL

    def bind(self, st, t, w):
        """variable term t becomes the term of word w"""
        self.on_bind(st)
        for r in [r for r, s in st.raw.items() if s == 'self']:
            del st.raw[r]
        for k in [k for k in st.mem if k[0][0] == 'ref' and k[0][1] == t]:
            del st.mem[k]
        if w[0] == 'mk':
            kind = absint.NUMTAG.get(w[1])
            if kind == 'ATM':
                st.kinds[t] = frozenset(['ATM'])
                n = self.eng.atom_name(w[2])
                if n is not None:
                    st.atoms[t] = (frozenset([n]), frozenset())
            elif kind == 'INT':
                st.kinds[t] = frozenset(['INT'])
                st.rng[('int', t)] = self.eng.interval(st, w[2])
                if isinstance(w[2], tuple):
                    lo, hi = st.rng[('int', t)]
                    st.rng[('int', t)] = (max(lo, absint.INTLO), min(hi, absint.INTHI))
            elif kind in ('STC', 'LST') and w[2] and isinstance(w[2], tuple) and w[2][0] == 'p':
                st.kinds[t] = frozenset([kind])
            else:
                st.kinds[t] = frozenset([kind]) if kind else ALL
        elif w[0] == 'w':
            t2 = w[1]
            if t2 == t:
                return
            st.kinds[t] = self.eng.kinds(st, t2)
            for d in (st.atoms, st.fnc):
                if t2 in d:
                    d[t] = d[t2]
            if ('int', t2) in st.rng:
                st.rng[('int', t)] = st.rng[('int', t2)]
            if not isinstance(t, str) or isinstance(t2, int):
                # later refinements are shared through one name
                a, b = (t, t2) if not isinstance(t, str) else (t2, t)
                self.subst(st, a, b)
        else:
            st.kinds.pop(t, None)

    def subst(self, st, a, b):
        ch = {}
        for k, v in st.mem.items():
            nk, nv = k, v
            if k[0][0] == 'h' and k[0][1] == a:
                nk = (('h', b), k[1])
            if isinstance(v, tuple) and v:
                if v[0] == 'w' and v[1] == a:
                    nv = ('w', b, next(self.cnt))
                elif v[0] == 'fa' and v[1] == a:
                    nv = ('fa', b)
            if nk is not k or nv is not v:
                ch[k] = (nk, nv)
        for k, (nk, nv) in ch.items():
            if nk != k:
                del st.mem[k]
            st.mem[nk] = nv
        for d in (st.kinds, st.atoms, st.fnc):
            if a in d:
                d.setdefault(b, d[a])
        if ('int', a) in st.rng:
            st.rng.setdefault(('int', b), st.rng[('int', a)])

    def restrict(self, st, w, ks):
        if w[0] == 'mk':
            return bool(self.kinds(st, w) & ks)
        if w[0] == 'w':
            return self.eng.set_kinds(st, w[1], frozenset(ks))
        return True

    def unify(self, st, a, b, depth=0):
        """[(bool, state)]"""
        if isinstance(a, int):
            a = absint.decode_const_word(a) or ('s', next(self.cnt), 0)
        if isinstance(b, int):
            b = absint.decode_const_word(b) or ('s', next(self.cnt), 0)
        if a == b:
            return [(True, st)]
        if a[0] not in ('w', 'mk') or b[0] not in ('w', 'mk'):
            s2 = st.copy()
            for x in (a, b):
                if x[0] == 'w' and 'VAR' in self.kinds(st, x):
                    self.on_bind(st)
                    st.kinds.pop(x[1], None)
            return [(True, st), (False, s2)]
        if a[0] == 'w' and b[0] == 'w' and a[1] == b[1]:
            return [(True, st)]
        ka, kb = self.kinds(st, a), self.kinds(st, b)
        if a[0] == 'mk' and b[0] == 'mk':
            if ka != kb:
                return [(False, st)]
            r = []
            s2 = st.copy()
            if isinstance(a[2], tuple) and a[2][0] == 'p' or isinstance(b[2], tuple) and b[2][0] == 'p':
                return [(True, st), (False, s2)]
            if self.eng.rel(st, 'eq', a[2], b[2]):
                r.append((True, st))
            if self.eng.rel(s2, 'ne', a[2], b[2]):
                r.append((False, s2))
            return r
        out = []
        # variables
        for x, y, kx in ((a, b, ka), (b, a, kb)):
            if x[0] == 'w' and 'VAR' in kx:
                s = st.copy()
                if self.restrict(s, x, {'VAR'}):
                    self.bind(s, x[1], y)
                    out.append((True, s))
                if kx == {'VAR'}:
                    return out
                st = st.copy()
                if not self.restrict(st, x, ALL - {'VAR'}):
                    return out
        ka, kb = self.kinds(st, a), self.kinds(st, b)
        if a[0] == 'mk':
            a, b, ka, kb = b, a, kb, ka
        # a is a non variable word
        if 'FDV' in ka or 'FDV' in kb:
            if ('FDV' in ka and kb & {'INT', 'FDV'}) or ('FDV' in kb and ka & {'INT', 'FDV'}):
                s = st.copy()
                self.on_bind(s)
                out.append((True, s))
        both = ka & kb - {'FDV'}
        if b[0] == 'mk':
            if both:
                s = st.copy()
                self.restrict(s, a, both)
                kind = next(iter(kb))
                if kind == 'ATM':
                    n = self.eng.atom_name(b[2])
                    if n is None or self.eng.rel_atom(s, 'eq', a[1], n):
                        out.append((True, s))
                elif kind == 'INT':
                    if self.eng.rel(s, 'eq', ('s', ('int', a[1]), 0), b[2]):
                        out.append((True, s))
                else:
                    out.append((True, s))
            f = st.copy()
            if ka <= kb:
                kind = next(iter(kb))
                if kind == 'ATM':
                    n = self.eng.atom_name(b[2])
                    if n is None or self.eng.rel_atom(f, 'ne', a[1], n):
                        out.append((False, f))
                elif kind == 'INT':
                    if self.eng.rel(f, 'ne', ('s', ('int', a[1]), 0), b[2]):
                        out.append((False, f))
                else:
                    out.append((False, f))
            else:
                if kb == {'ATM'}:
                    n = self.eng.atom_name(b[2])
                    if n is not None:
                        inc, exc = f.atoms.get(a[1], (None, frozenset()))
                        f.atoms[a[1]] = (inc - {n} if inc is not None else None, exc | {n})
                out.append((False, f))
            return out
        for k in sorted(both):
            s = st.copy()
            self.restrict(s, a, {k})
            self.restrict(s, b, {k})
            if k in ('INT', 'FLT', 'ATM'):
                f = s.copy()
                if k == 'ATM':
                    ia, ib = s.atoms.get(a[1], (None, frozenset())), s.atoms.get(b[1], (None, frozenset()))
                    inc = ia[0] if ib[0] is None else ib[0] if ia[0] is None else ia[0] & ib[0]
                    exc = ia[1] | ib[1]
                    if inc is not None:
                        inc = inc - exc
                    if inc is None or inc:
                        s.atoms[a[1]] = s.atoms[b[1]] = (inc, exc)
                        out.append((True, s))
                    if not (ia[0] is not None and ia[0] == ib[0] and len(ia[0]) == 1):
                        out.append((False, f))
                elif k == 'INT':
                    if self.eng.rel(s, 'eq', ('s', ('int', a[1]), 0), ('s', ('int', b[1]), 0)):
                        out.append((True, s))
                    if self.eng.rel(f, 'ne', ('s', ('int', a[1]), 0), ('s', ('int', b[1]), 0)):
                        out.append((False, f))
                else:
                    out.append((True, s))
                    out.append((False, f))
            else:
                out.extend(self.unify_struct(s, a, b, k, depth))
        if (ka != kb or len(ka) > 1) and (len(ka | kb) > 1):
            out.append((False, st.copy()))
        return out

    def unify_struct(self, s, a, b, k, depth):
        if k == 'LST':
            n = 2
        else:
            fa, fb = s.fnc.get(a[1], (None, frozenset())), s.fnc.get(b[1], (None, frozenset()))
            inc = fa[0] if fb[0] is None else fb[0] if fa[0] is None else fa[0] & fb[0]
            exc = fa[1] | fb[1]
            if inc is not None:
                inc = frozenset(x for x in inc if x not in exc)
                if not inc:
                    return [(False, s)]
            f = s.copy()
            out = []
            if inc is None or len(inc) > 1:
                s.fnc[a[1]] = s.fnc[b[1]] = (inc, exc)
                self.on_bind(s)
                return [(True, s), (False, f)]
            s.fnc[a[1]] = s.fnc[b[1]] = (inc, exc)
            one = next(iter(inc))
            if fa[0] != inc or fb[0] != inc:
                # the other functor is possible for the less known side
                x = a if fa[0] != inc else b
                i0, e0 = f.fnc.get(x[1], (None, frozenset()))
                f.fnc[x[1]] = (i0 - {one} if i0 is not None else None, e0 | {one})
                out.append((False, f))
            n = one[1]
            if depth > 4:
                self.on_bind(s)
                return out + [(True, s), (False, s.copy())]
            return out + self.unify_args(s, a, b, n, False, depth)
        if depth > 4:
            self.on_bind(s)
            return [(True, s), (False, s.copy())]
        return self.unify_args(s, a, b, n, True, depth)

    def unify_args(self, s, a, b, n, lst, depth):
        states = [s]
        out = []
        for i in range(n):
            nxt = []
            for x in states:
                wa, wb = self.arg(x, a[1], i, lst), self.arg(x, b[1], i, lst)
                for ok, y in self.unify(x, wa, wb, depth + 1):
                    (nxt if ok else out).append(y if ok else (False, y))
            states = nxt
        return out + [(True, x) for x in states]

    # ------------------------------------------------------------------ outcomes
    def query(self, name, args, st):
        """explore name(args...); args are words.  Returns an Outcome"""
        self.eng.steps = 0
        self.eng.throws = []
        self.steps = 0
        self.out = Outcome()
        self.stack = []
        self.callno = {}
        st.mem[CD] = 0
        st.mem[BC] = -1
        try:
            for tag, lvl, s in self.callp((name, len(args)), list(args), st, self.succ_top):
                self.out.fails.append(s)
        except Budget as e:
            self.out.budget = str(e)
        except RecursionError:
            self.out.budget = 'recursion'
        return self.out

    def succ_top(self, st):
        self.out.succ.append(st)
        return []

    def throw(self, st, term, where):
        self.out.throws.append((term, st, where))
        return []

    def drain(self, st0, where):
        """C-level exceptions raised since the last call"""
        ts, self.eng.throws = self.eng.throws, []
        for name, args, st, frame, ins in ts:
            term = None
            m = self.errfns.get(name)
            if m is not None:
                ws = list(args)
                params = self.P.fn(name).cty
                vals = []
                for i, a in enumerate(ws):
                    vals.append(self.absval(st, a, params[i + 1] if i + 1 < len(params) else ''))
                term = (m,) + tuple(vals)
            if term is None:
                term = ('noreturn', name)
            loc = frame.fn.loc(ins) if frame.fn else ''
            self.out.throws.append((term, st, loc))

    def absval(self, st, v, cty=''):
        if isinstance(v, tuple) and v[0] == 'a':
            return v[1]
        if isinstance(v, int) and cty in ('int', 'PlLong'):
            n = absint.atom_const_name(v)
            return n if n is not None else v
        return self.show(st, v)

    def show(self, st, v, d=0):
        """stable description of a word: argument names are kept"""
        if isinstance(v, tuple):
            if v[0] == 'mk':
                if v[1] == 3:
                    n = self.eng.atom_name(v[2])
                    return n if n is not None else ('atom', '?')
                if v[1] == 7:
                    return v[2] if isinstance(v[2], int) else ('int', '?')
                return ('term', '?')
            if v[0] == 'w':
                if isinstance(v[1], str):
                    return ('arg', v[1])
                k = self.eng.kinds(st, v[1])
                a = st.atoms.get(v[1])
                if k == {'ATM'} and a and a[0] and len(a[0]) == 1:
                    return next(iter(a[0]))
                f = st.fnc.get(v[1])
                if k == {'STC'} and f and f[0] and len(f[0]) == 1 and d < 3:
                    n, ar = next(iter(f[0]))
                    if ar is not None:
                        return ('stc', n) + tuple(self.show(st, self.arg(st, v[1], i), d + 1) for i in range(ar))
                if ('h', v[1]) and k == {'LST'}:
                    return ('list',)
                # sub-term of an argument?
                own = self.owner(st, v[1])
                if own:
                    return ('sub', own)
                if k == {'INT'} and ('int', v[1]) in st.rng and st.rng[('int', v[1])][0] == st.rng[('int', v[1])][1]:
                    return st.rng[('int', v[1])][0]
                return ('term', '?')
        return ('term', '?')

    def owner(self, st, t, depth=0):
        if isinstance(t, str):
            return t
        if depth > 6:
            return None
        for k, v in st.mem.items():
            if k[0][0] == 'h' and isinstance(v, tuple) and v[0] == 'w' and v[1] == t and k[0][1] != t:
                o = self.owner(st, k[0][1], depth + 1)
                if o:
                    return o
        return None

    # ------------------------------------------------------------------ goals
    # solve functions return a list of ('fail', None, st) or ('cut', frame, st)
    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('too many goals')

    def enter_choice(self, st):
        d = st.mem.get(CD, 0)
        s = st.copy()
        s.mem[CD] = d + 1
        return s, d + 1

    def refined(self, saved, st, depth):
        """state in which an alternative opened at `depth` is tried after st failed"""
        bc = st.mem.get(BC, -1)
        if isinstance(bc, int) and bc < depth:
            s = st.copy()
            s.mem[CD] = depth - 1
            s.mem[BC] = saved.mem.get(BC, -1)
            for k in (IMP, BIP, CBIP):
                pass
            return s
        s = saved.copy()
        for k in (BIP, CBIP):
            if k in st.mem:
                s.mem[k] = st.mem[k]
        return s

    def dedupe(self, lst):
        seen = set()
        out = []
        for tag, lvl, s in lst:
            h = (tag, lvl, self.eng.canon({}, s, self.dummy))
            if h not in seen:
                seen.add(h)
                out.append((tag, lvl, s))
        return out

    def solve(self, g, st, fid, sk):
        self.tick()
        if isinstance(g, V):
            return self.opaque(st, 'call/1', sk)
        if isinstance(g, A):
            n = g.name
            if n == 'true':
                return sk(st)
            if n in ('fail', 'false'):
                return [('fail', None, st)]
            if n == '!':
                return [('cut', fid, s) if t == 'fail' else (t, l, s) for t, l, s in sk(st)]
            return self.callp((n, 0), [], st, sk)
        if not isinstance(g, C):
            return self.opaque(st, 'call/1', sk)
        k = (g.name, g.arity)
        if k == (',', 2):
            a, b = g.args
            return self.solve(a, st, fid, lambda s: self.solve(b, s, fid, sk))
        if k == (';', 2):
            a, b = g.args
            if isinstance(a, C) and a.name == '->' and a.arity == 2:
                return self.ite(a.args[0], a.args[1], b, st, fid, sk)
            s1, d = self.enter_choice(st)
            out = []
            alts = []
            for t, l, s in self.solve(a, s1, fid, sk):
                if t == 'fail':
                    alts.append(('fail', None, self.refined(st, s, d)))
                else:
                    out.append((t, l, s))
            for _, _, s in self.dedupe(alts):
                out.extend(self.solve(b, s, fid, sk))
            return out
        if k == ('->', 2):
            return self.ite(g.args[0], g.args[1], A('fail'), st, fid, sk)
        if k == ('\\+', 1):
            return self.ite(g.args[0], A('fail'), A('true'), st, fid, sk)
        if k == ('=', 2):
            w1 = self.build(st, g.args[0], fid)
            w2 = self.build(st, g.args[1], fid)
            return self.branch(self.unify(st, w1, w2), sk)
        if k == ('\\=', 2):
            w1 = self.build(st, g.args[0], fid)
            w2 = self.build(st, g.args[1], fid)
            r = []
            for ok, s in self.unify(st.copy(), w1, w2):
                r.append((not ok, s if not ok else st.copy()))
            return self.branch(r, sk)
        if g.name in ('$call_c', '$call_c_test', '$call_c_jump'):
            return self.call_c(g, st, fid, sk)
        if k == ('throw', 1):
            return self.throw(st, self.ballterm(st, g.args[0], fid), 'throw/1')
        if k == ('$pl_error', 1):
            return self.throw(st, self.errterm(st, g.args[0], fid), '$pl_error/1')
        if k == ('set_bip_name', 2):
            v = []
            for x in g.args:
                w = self.build(st, x, fid)
                y = self.show(st, w)
                v.append(y if isinstance(y, (str, int)) else '?')
            st.mem[BIP] = ('bip', v[0], v[1])
            st.mem.pop(CBIP, None)
            return sk(st)
        if k == ('is', 2):
            return self.arith(g, st, fid, sk)
        if k in (('<', 2), ('>', 2), ('=<', 2), ('>=', 2), ('=:=', 2), ('=\\=', 2)):
            return self.arith(g, st, fid, sk)
        if k in (('g_assign', 2), ('g_assignb', 2), ('g_link', 2)):
            w = self.build(st, g.args[1], fid)
            n = g.args[0]
            if not isinstance(n, A):
                for k2 in [k2 for k2 in st.mem if k2[0] == ('gv',)]:
                    del st.mem[k2]
            elif g.name == 'g_link' or w[0] == 'mk':
                st.mem[(('gv',), n.name)] = w
            else:
                st.mem[(('gv',), n.name)] = ('w', next(self.cnt), next(self.cnt))
            return sk(st)
        if k == ('g_read', 2):
            w = self.build(st, g.args[1], fid)
            n = g.args[0]
            u = st.mem.get((('gv',), n.name)) if isinstance(n, A) else None
            if u is None:
                # an unknown stored value
                u = ('w', next(self.cnt), next(self.cnt))
                if isinstance(n, A):
                    st.mem[(('gv',), n.name)] = u
            return self.branch(self.unify(st, w, u), sk)
        if g.name.startswith('$sys_var_') and not self.L.preds.get(k):
            return self.sysvar(g, st, fid, sk)
        if k in (('call', 1), ('once', 1), ('catch', 3), ('$call_internal', 2), ('$call', 4), ('$catch', 6)):
            return self.opaque(st, '%s/%d' % k, sk)
        if k == ('fd_tell', 1) and isinstance(g.args[0], C) and (g.args[0].name, g.args[0].arity) in fd_signatures():
            return self.fd_tell(g.args[0], st, fid, sk)
        args = [self.build(st, a, fid) for a in g.args]
        if k in self.L.inline:
            return self.inline(k, args, st, sk)
        return self.callp(k, args, st, sk)

    def fd_tell(self, g, st, fid, sk):
        """a user-level constraint converts its arguments in order, then is posted (which can fail)"""
        types = fd_signatures()[(g.name, g.arity)]
        args = [self.build(st, a, fid) for a in g.args]

        def step(i, s):
            if i == len(types):
                self.eng.binds(s)
                self.on_bind(s)
                return [('fail', None, s.copy())] + sk(s)
            c = FD_CONV.get(types[i])
            if c is None:
                return step(i + 1, s)
            fn = self.P.need(c[0])
            return self.run_c(fn, [args[i]] + c[1], s, lambda s2: step(i + 1, s2), False, False)
        return step(0, st)

    def sysvar(self, g, st, fid, sk):
        if g.name in ('$sys_var_read', '$sys_var_get') and g.arity == 2:
            w = self.build(st, g.args[1], fid)
            t = next(self.cnt)
            if g.name == '$sys_var_read':
                st.kinds[t] = frozenset(['INT'])
            return self.branch(self.unify(st, w, ('w', t, next(self.cnt))), sk)
        return sk(st)

    def arith(self, g, st, fid, sk):
        if g.name == 'is':
            w = self.build(st, g.args[0], fid)
            ks = self.kinds(st, w)
            v = g.args[1]
            t = next(self.cnt)
            st.kinds[t] = frozenset(['INT', 'FLT'])
            return self.branch(self.unify(st, w, ('w', t, next(self.cnt))), sk)
        # comparisons of an integer with a constant are interpreted, others may go either way
        ops = {'<': 'slt', '>': 'sgt', '=<': 'sle', '>=': 'sge', '=:=': 'eq', '=\\=': 'ne'}
        ws = [self.build(st, x, fid) for x in g.args]
        if all(self.kinds(st, w) == {'INT'} for w in ws):
            vs = [w[2] if w[0] == 'mk' else ('s', ('int', w[1]), 0) for w in ws]
            s2 = st.copy()
            r = []
            if self.eng.rel(st, ops[g.name], vs[0], vs[1]):
                r.append((True, st))
            if self.eng.rel(s2, absint._INV[ops[g.name]], vs[0], vs[1]):
                r.append((False, s2))
            return self.branch(r, sk)
        s2 = st.copy()
        return self.branch([(True, st), (False, s2)], sk)

    def branch(self, res, sk):
        out = []
        for ok, s in res:
            if ok:
                out.extend(sk(s))
            else:
                out.append(('fail', None, s))
        return out

    def ite(self, c, t, e, st, fid, sk):
        s1, d = self.enter_choice(st)
        sols = []
        fails = []
        for tag, lvl, s in self.solve(c, s1, ('ite', fid), lambda s: (sols.append(s), [])[1]):
            fails.append(('fail', None, self.refined(st, s, d)))
        out = []
        for _, _, s in self.dedupe([('fail', None, s) for s in sols]):
            s = s.copy()
            s.mem[CD] = d - 1
            bc = s.mem.get(BC, -1)
            if isinstance(bc, int) and bc >= d:
                s.mem[BC] = d - 1 if d - 1 > -1 else -1
            out.extend(self.solve(t, s, fid, sk))
        for _, _, s in self.dedupe(fails):
            out.extend(self.solve(e, s, fid, sk))
        return out

    def imprecise(self, st, why):
        if IMP not in st.mem:
            st.mem[IMP] = ('imp', why)

    def opaque(self, st, why, sk):
        self.imprecise(st, why)
        f = st.copy()
        self.eng.binds(st)
        self.on_bind(st)
        return [('fail', None, f)] + sk(st)

    def errterm(self, st, t, fid):
        if isinstance(t, A):
            return (t.name,)
        if isinstance(t, C):
            return (t.name,) + tuple(self.show(st, self.build(st, a, fid)) for a in t.args)
        return ('?',)

    def ballterm(self, st, t, fid):
        if isinstance(t, C) and t.name == 'error' and t.arity == 2 and not isinstance(t.args[0], V):
            return self.errterm(st, t.args[0], fid)
        return ('throw', self.show(st, self.build(st, t, fid)))

    # ------------------------------------------------------------------ predicates
    def callp(self, key, args, st, sk):
        self.tick()
        if key == ('$pl_error', 1):
            return self.throw(st, ('?',), '$pl_error/1')
        cls = self.L.preds.get(key)
        if cls is None:
            return self.opaque(st, 'undefined %s/%d' % key, sk)
        depth = sum(1 for k in self.stack if k == key)
        if depth > self.maxrec or len(self.stack) > 60:
            return self.opaque(st, 'recursion %s/%d' % key, sk)
        self.stack.append(key)
        stk = list(self.stack)
        self.fid += 1
        # deterministic frame names: position in the exploration does not matter for state equality
        self.callno[key] = self.callno.get(key, 0) + 1
        fid = (key, len(self.stack), self.callno[key])
        cur, d = self.enter_choice(st)
        states = [cur]
        out = []

        def leave(s):
            save = self.stack
            self.stack = stk[:-1]
            try:
                # variables of the frame are dead
                s = s.copy()
                for k in [k for k in s.mem if k[0][0] == 'pl' and k[0][1] == fid]:
                    del s.mem[k]
                return sk(s)
            finally:
                self.stack = save

        akeys = [(('plarg', fid), i) for i in range(len(args))]
        for s in states:
            for k, a in zip(akeys, args):
                s.mem[k] = a
        for ci, cl in enumerate(cls):
            nxt = []
            for s in states:
                s0 = s.copy()
                for tag, lvl, f in self.clause(cl, fid, akeys, s0, leave):
                    if tag == 'cut' and (lvl == fid or isinstance(lvl, tuple) and lvl[0] == 'ite' and False):
                        g = self.refined(st, f, d)
                        out.append(('fail', None, g))
                    elif tag == 'cut':
                        out.append((tag, lvl, f))
                    else:
                        g = self.refined(cur, f, d)
                        g.mem[CD] = d
                        for k in [k for k in g.mem if k[0][0] == 'pl' and k[0][1] == fid]:
                            del g.mem[k]
                        nxt.append(('fail', None, g))
            states = [s for _, _, s in self.dedupe(nxt)]
            if not states:
                break
        for s in states:
            s = s.copy()
            s.mem[CD] = d - 1
            for k in akeys:
                s.mem.pop(k, None)
            out.append(('fail', None, s))
        self.stack.pop()
        return out

    def clause(self, cl, fid, akeys, st, sk):
        hs = cl.head.args if isinstance(cl.head, C) else ()
        states = [st]
        out = []
        for k, p in zip(akeys, hs):
            nxt = []
            for s in states:
                w = s.mem[k]
                if isinstance(p, V):
                    vk = (('pl', fid), p.id)
                    if vk not in s.mem:
                        s.mem[vk] = w
                        nxt.append(s)
                        continue
                for ok, s2 in self.unify(s, w, self.build(s, p, fid)):
                    if ok:
                        nxt.append(s2)
                    else:
                        out.append(('fail', None, s2))
            states = nxt
        for s in states:
            out.extend(self.solve(cl.body, s, fid, sk))
        return out

    # ------------------------------------------------------------------ C calls
    def call_c(self, g, st, fid, sk):
        spec = g.args[0]
        opts = set()
        if g.arity > 1:
            for o in plread.ltoks(g.args[1]):
                opts.add(o.name)
        name, cargs = (spec.name, spec.args) if isinstance(spec, C) else (spec.name, ())
        fn = self.P.fn(name)
        if fn is None:
            return self.opaque(st, 'C function %s not analysed' % name, sk)
        boolean = g.name == '$call_c_test' or 'boolean' in opts
        byval = 'by_value' in opts
        args = []
        for a in cargs:
            if byval and isinstance(a, A):
                args.append(('a', a.name))
            elif byval and isinstance(a, int):
                args.append(a)
            else:
                args.append(self.build(st, a, fid))
        return self.run_c(fn, args, st, sk, boolean, g.name == '$call_c_jump' or 'jump' in opts)

    def inline(self, k, args, st, sk):
        name, ret = self.L.inline[k]
        fn = self.P.fn(name)
        if fn is None:
            return self.opaque(st, 'C function %s not analysed' % name, sk)
        return self.run_c(fn, args, st, sk, ret == 'bool', False)

    def run_c(self, fn, args, st, sk, boolean, jump):
        e = self.eng
        if len(args) != len(fn.args):
            raise AnalysisBroken('%s is called with %d arguments but takes %d' % (fn.name, len(args), len(fn.args)))
        res = e.run(fn, args, st)
        self.drain(st, fn.name)
        out = []
        succ = []
        for rv, s in res:
            if jump:
                self.imprecise(s, 'jump from %s' % fn.name)
                e.binds(s)
                succ.append(('fail', None, self.normal(s)))
                continue
            if boolean:
                if rv is None:
                    raise AnalysisBroken('%s returns no value but its result is tested' % fn.name)
                if not isinstance(rv, int) and rv[0] in ('p', 'fn', 'a'):
                    rv = 1
                f = s.copy()
                c = ('c', 'ne', rv, 0) if not isinstance(rv, int) else int(rv != 0)
                if e.assume(s, c, True):
                    succ.append(('fail', None, self.normal(s)))
                if e.assume(f, c, False):
                    out.append(('fail', None, self.normal(f)))
            else:
                succ.append(('fail', None, self.normal(s)))
        for _, _, s in self.dedupe(succ):
            out.extend(sk(s))
        return self.dedupe(out)


    def normal(self, s):
        """forget what only matters inside C code"""
        s = s.copy()
        for k in [k for k in s.mem if k[0][0] in ('g', 'al', 'o', 'regs', 'ref', 'str', 'terms')]:
            del s.mem[k]
        s.esc = frozenset()
        for k, v in s.mem.items():
            if isinstance(v, tuple) and v[0] == 'w':
                s.mem[k] = ('w', v[1], next(self.cnt))
        s.raw = {}
        return s


class Outcome:
    def __init__(self):
        self.succ = []
        self.fails = []
        self.throws = []
        self.budget = None

    def terms(self):
        return {t for t, _, _ in self.throws}


# how each parameter type of a constraint is converted (src/EngineFD/fd_to_c.h)
FD_CONV = {'int': ('Pl_Fd_Prolog_To_Value', []), 'range': ('Pl_Fd_Prolog_To_Range', []),
           'fdv': ('Pl_Fd_Prolog_To_Fd_Var', [1]), 'l_int': ('Pl_Fd_Prolog_To_Array_Int', []),
           'l_fdv': ('Pl_Fd_Prolog_To_Array_Fdv', [1]), 'l_any': ('Pl_Fd_Prolog_To_Array_Any', [])}
_fds = None


def fd_signatures():
    global _fds
    if _fds is None:
        _fds = {}
        d = os.path.join(prep.REPO, 'src', 'BipsFD')
        for f in sorted(os.listdir(d)):
            if not f.endswith('.fd') or f == 't_fd.fd':
                continue
            txt = open(os.path.join(d, f), encoding='latin-1').read()
            txt = re.sub(r'%\{.*?%\}', '', txt, flags=re.S)
            txt = re.sub(r'/\*.*?\*/', '', txt, flags=re.S)
            for m in re.finditer(r'(?m)^\s*(\w+)\s*\(([^(){}]*)\)\s*\{', txt):
                ts = [x.split()[0] for x in m.group(2).split(',') if x.strip()]
                _fds[(m.group(1), len(ts))] = ts
    return _fds


def fd_expansion(name):
    for (n, _), ts in fd_signatures().items():
        if n == name:
            return [FD_CONV[t][:1] + (i, FD_CONV[t][1]) for i, t in enumerate(ts) if t in FD_CONV]
    return None


def error_functions(prog):
    """C functions that raise a Prolog error: name -> error functor (from the predicate they jump to)"""
    r = {}
    for f in prog.allfns():
        if not f.name.startswith('Pl_Err_') or f.internal:
            continue
        # the predicate that the function continues in, e.g. X1_24706C5F6572725F74797065 = $pl_err_type
        for _bi, ins in f.calls():
            for a in ins[5]:
                if isinstance(a, list) and a[0] == 'g' and a[1].startswith('X'):
                    p = demangle(a[1])
                    if p and p[0].startswith('$pl_err_'):
                        r[f.name] = p[0][8:] + '_error'
    if len(r) < 8:
        raise AnalysisBroken('the C error functions were not recognised')
    return r


def demangle(s):
    """Prolog symbol name -> (name, arity)"""
    import re
    m = re.match(r'^X(\d)_(.*)__a(\d+)$', s) or re.match(r'^X(\d)_(.*)$', s)
    if not m:
        return None
    kind = int(m.group(1))
    body = m.group(2)
    ar = int(m.group(3)) if m.lastindex >= 3 else None
    out = []
    parts = body.split('__') if kind not in (0, 1) else [body]
    name = body
    try:
        if kind == 1:
            name = bytes.fromhex(body).decode('latin-1')
        elif kind == 0:
            name = body
        else:
            name = None
    except ValueError:
        return None
    return (name, ar) if name is not None else None

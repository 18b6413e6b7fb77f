"""Program facts: functions, blocks, calls, globals, struct layouts, CFG helpers."""
import json
import os
import re

from . import prep
from .prep import AnalysisBroken


class Fn:
    __slots__ = ('name', 'unit', 'd', 'blocks', 'internal', 'line', 'file', 'args', 'ret', 'cty', 'argnames', 'names',
                 'noreturn', '_succ', '_pred', '_def', '_live', '_heads', '_rpo', '_idom', 'addrtaken', 'varargs', '_ncalls')

    def __init__(self, name, unit, d):
        self.name = name
        self.unit = unit
        self.d = d
        self.blocks = d['blocks']
        self.internal = d['internal']
        self.line = d.get('line', 0)
        self.file = d.get('file', '')
        self.args = d['args']
        self.ret = d['ret']
        self.cty = d.get('cty', [])
        self.argnames = d.get('argnames', [])
        self.names = {int(k): v for k, v in d['names'].items()}
        self.noreturn = d['noreturn']
        self.addrtaken = d['addrtaken']
        self.varargs = d['varargs']
        self._succ = self._pred = self._def = self._live = self._heads = self._rpo = self._idom = None

    def __repr__(self):
        return 'Fn(%s)' % self.name

    @property
    def where(self):
        return '%s:%s' % (relpath(self.file), self.line)

    def loc(self, ins):
        return '%s:%s (%s)' % (relpath(self.file), ins[3] or self.line, self.name)

    @property
    def succ(self):
        if self._succ is None:
            self._succ = []
            for b in self.blocks:
                t = b[-1]
                if t[0] == 'br':
                    s = [t[4]] if len(t) == 5 else ([t[5], t[6]] if t[5] != t[6] else [t[5]])
                elif t[0] == 'switch':
                    s = []
                    for x in [t[5]] + [c[1] for c in t[6]]:
                        if x not in s:
                            s.append(x)
                else:
                    s = []
                self._succ.append(s)
        return self._succ

    @property
    def pred(self):
        if self._pred is None:
            self._pred = [[] for _ in self.blocks]
            for i, ss in enumerate(self.succ):
                for s in ss:
                    self._pred[s].append(i)
        return self._pred

    @property
    def defs(self):
        """ssa id -> (block, instr)"""
        if self._def is None:
            self._def = {}
            for bi, b in enumerate(self.blocks):
                for ins in b:
                    if ins[1] >= 0:
                        self._def[ins[1]] = (bi, ins)
        return self._def

    @property
    def rpo(self):
        if self._rpo is None:
            seen = set()
            order = []
            stack = [(0, iter(self.succ[0]))]
            seen.add(0)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ[s])))
                        break
                else:
                    order.append(n)
                    stack.pop()
            order.reverse()
            self._rpo = order
        return self._rpo

    @property
    def idom(self):
        if self._idom is None:
            order = self.rpo
            num = {b: i for i, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in self.pred[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                a, c = new, p
                                while a != c:
                                    while num[a] > num[c]:
                                        a = idom[a]
                                    while num[c] > num[a]:
                                        c = idom[c]
                                new = a
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._idom = idom
        return self._idom

    def dominates(self, a, b):
        idom = self.idom
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            b = idom[b]

    @property
    def heads(self):
        """loop headers: header -> set of back-edge sources (any retreating edge target counts)"""
        if self._heads is None:
            order = self.rpo
            num = {b: i for i, b in enumerate(order)}
            h = {}
            for b in order:
                for s in self.succ[b]:
                    if num[s] <= num[b]:
                        h.setdefault(s, set()).add(b)
            self._heads = h
        return self._heads

    def live_in(self):
        """block -> frozenset of ssa ids live on entry (phi operands counted on the incoming edge)"""
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]
            dfn = [set() for _ in range(n)]
            phiuse = [set() for _ in range(n)]   # at the end of block i, used by phis of successors
            for bi, b in enumerate(self.blocks):
                for ins in b:
                    if ins[0] == 'phi':
                        for pb, v in ins[4]:
                            for o in opnds_of(v):
                                phiuse[pb].add(o)
                        dfn[bi].add(ins[1])
                        continue
                    for o in instr_uses(ins):
                        if o not in dfn[bi]:
                            use[bi].add(o)
                    if ins[1] >= 0:
                        dfn[bi].add(ins[1])
            live = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for bi in reversed(self.rpo):
                    out = set(phiuse[bi])
                    for s in self.succ[bi]:
                        out |= live[s]
                    new = use[bi] | (out - dfn[bi])
                    if new != live[bi]:
                        live[bi] = new
                        ch = True
            # phi-defined values are live on entry of their own block for the interpreter
            self._live = [frozenset(x) for x in live]
        return self._live

    def calls(self):
        for bi, b in enumerate(self.blocks):
            for ins in b:
                if ins[0] == 'call':
                    yield bi, ins

    def ninstr(self):
        return sum(len(b) for b in self.blocks)


def relpath(p):
    r = os.path.realpath(p)
    s = os.path.realpath(prep.REPO)
    return r[len(s) + 1:] if r.startswith(s) else p


def opnds_of(o):
    """ssa ids inside an operand encoding"""
    if isinstance(o, int):
        return (o,)
    if isinstance(o, list) and o and o[0] == 'ce':
        r = ()
        for x in o[2]:
            r += opnds_of(x)
        return r
    return ()


def instr_operands(ins):
    """list of operand encodings of an instruction"""
    op = ins[0]
    if op == 'load':
        return [ins[4]]
    if op == 'store':
        return [ins[4], ins[5]]
    if op == 'getelementptr':
        return [ins[4]] + [x[0] for x in ins[6]]
    if op == 'phi':
        return [x[1] for x in ins[4]]
    if op == 'br':
        return [ins[4]] if len(ins) > 5 else []
    if op == 'switch':
        return [ins[4]]
    if op in ('icmp', 'fcmp'):
        return [ins[5], ins[6]]
    if op == 'call':
        return [ins[4]] + ins[5]
    if op == 'alloca':
        return [ins[5]]
    if op == 'extractvalue':
        return [ins[4]]
    if op == 'insertvalue':
        return [ins[4], ins[5]]
    return ins[4] if len(ins) > 4 else []


def instr_uses(ins):
    r = []
    for o in instr_operands(ins):
        r.extend(opnds_of(o))
    return r


def callee(ins):
    c = ins[4]
    return c[1] if isinstance(c, list) and c[0] == 'g' else None


class Unit:
    def __init__(self, path, d):
        self.path = path
        self.rel = relpath(path)
        self.name = os.path.basename(path)
        self.globals = d['globals']
        self.decls = d['decls']
        self.structs = d['structs']
        self.fns = {n: Fn(n, self, f) for n, f in d['functions'].items()}


class Program:
    def __init__(self, units=None, extra=(), passes=None):
        us = units if units is not None else prep.units()
        raw = prep.compile_units(us, extra, passes)
        self.units = {}
        self.ext = {}         # external name -> Fn
        self.structs = {}
        for p, out in raw.items():
            u = Unit(p, json.loads(out))
            self.units[u.rel] = u
            for n, f in u.fns.items():
                if not f.internal and not (n == 'main'):
                    self.ext.setdefault(n, f)
            for n, s in u.structs.items():
                self.structs.setdefault(n, s)
        self.gext = {}
        for u in self.units.values():
            for n, g in u.globals.items():
                if not g['internal'] and not g.get('ext'):
                    if n not in self.gext or (g.get('init') and not self.gext[n].get('init')):
                        self.gext[n] = g
        self._noret = None

    def fn(self, name, unit=None):
        if unit is not None and name in unit.fns:
            return unit.fns[name]
        return self.ext.get(name)

    def named(self):
        """the names of all functions with a body, static ones included"""
        if not hasattr(self, '_named'):
            self._named = {n for u in self.units.values() for n in u.fns}
        return self._named

    def need(self, name):
        f = self.ext.get(name)
        if f is None:
            for u in self.units.values():
                if name in u.fns:
                    return u.fns[name]
            raise AnalysisBroken('anchor function %s not found' % name)
        return f

    def glob(self, name, unit=None):
        if unit is not None and name in unit.globals and not unit.globals[name].get('ext'):
            return unit.globals[name]
        return self.gext.get(name)

    def allfns(self):
        seen = set()
        for u in self.units.values():
            for f in u.fns.values():
                if not f.internal and self.ext.get(f.name) is not f and f.name != 'main':
                    continue
                if f.name == 'main' or True:
                    yield f

    def field(self, struct, name):
        s = self.structs.get(struct)
        if s is None:
            raise AnalysisBroken('struct %s not found' % struct)
        for n, off, size, t in s:
            if n == name:
                return off // 8
        raise AnalysisBroken('field %s.%s not found' % (struct, name))

    # ---- noreturn inference
    def noreturn(self):
        if self._noret is not None:
            return self._noret
        base = set()
        for u in self.units.values():
            for n, d in u.decls.items():
                if d['noreturn']:
                    base.add((None, n))
        base |= {(None, n) for n in ('exit', '_exit', 'abort', 'siglongjmp', 'longjmp', '__assert_fail')}
        keyf = {}
        for u in self.units.values():
            for f in u.fns.values():
                keyf[(u.rel if f.internal else None, f.name)] = f
        nr = set(base)
        ch = True
        while ch:
            ch = False
            for k, f in keyf.items():
                if k in nr:
                    continue
                if not self._may_return(f, nr):
                    nr.add(k)
                    ch = True
        self._noret = nr
        return nr

    def key(self, name, unit):
        if unit is not None and name in unit.fns and unit.fns[name].internal:
            return (unit.rel, name)
        return (None, name)

    def may_throw(self, name, unit):
        """can the function (transitively) reach a function that does not return?"""
        if not hasattr(self, '_mt'):
            calls = {}
            mt = set()
            for f in self.allfns():
                k = self.key(f.name, f.unit)
                cs = calls.setdefault(k, set())
                for _, ins in f.calls():
                    c = callee(ins)
                    if c is None:
                        continue
                    if c.startswith('llvm.'):
                        continue
                    if self.is_noreturn(c, f.unit):
                        if c not in ('Pl_Fatal_Error', 'abort', 'exit', '__assert_fail'):
                            mt.add(k)
                    else:
                        cs.add(self.key(c, f.unit))
            ch = True
            while ch:
                ch = False
                for k, cs in calls.items():
                    if k not in mt and cs & mt:
                        mt.add(k)
                        ch = True
            self._mt = mt
        return self.key(name, unit) in self._mt

    def is_noreturn(self, name, unit):
        return self.key(name, unit) in self.noreturn()

    def _may_return(self, f, nr):
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            dead = False
            for ins in f.blocks[b]:
                if ins[0] == 'call':
                    if ins[6]:
                        dead = True
                        break
                    c = callee(ins)
                    if c is not None and self.key(c, f.unit) in nr:
                        dead = True
                        break
                elif ins[0] == 'ret':
                    return True
            if dead:
                continue
            for s in f.succ[b]:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return False


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog

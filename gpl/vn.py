"""Value numbering: canonical linear expressions for SSA values, and the effects (stores, calls, branch facts) of the
acyclic paths of a function.  A value is  (const, ((atom, coef), ...))  with atoms
  ('arg', i) | ('ld', addr, n) | ('phi', id) | ('call', id, name) | ('g', name) | (op, operands...) | ('fn', name)
Loads see the stores made earlier on the same path to the same canonical address; two different canonical addresses are
taken not to alias."""
from . import ir

CASTS = ('zext', 'sext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr')


def const(n):
    return (n, ())


def atom(a):
    return (0, ((a, 1),))


def add(a, b, k=1):
    d = dict(a[1])
    for x, c in b[1]:
        d[x] = d.get(x, 0) + k * c
    return (a[0] + k * b[0], tuple(sorted(((x, c) for x, c in d.items() if c), key=repr)))


def scale(a, k):
    return (a[0] * k, tuple((x, c * k) for x, c in a[1])) if k else (0, ())


def off(a, n):
    return (a[0] + n, a[1])


class Limit(Exception):
    pass


class State:
    __slots__ = ('env', 'mem', 'stores', 'calls', 'facts', 'ret', 'block', 'end', 'visited', 'order', 'to', 'phi')

    def __init__(self):
        self.env, self.mem, self.stores, self.calls, self.facts = {}, {}, [], [], []
        self.ret = None
        self.end = None
        self.visited = ()
        self.order = []

    def copy(self):
        s = State()
        s.env, s.mem = dict(self.env), dict(self.mem)
        s.stores, s.calls, s.facts = list(self.stores), list(self.calls), list(self.facts)
        s.visited = self.visited
        s.order = list(self.order)
        return s


class Eval:
    def __init__(self, prog, fn, clobber=None, consts=None):
        self.prog, self.fn = prog, fn
        self.clobber = clobber                   # callee name -> predicate on addresses it may change, or None
        self.consts = consts or {}
        D = fn.defs

        def root(o):
            while isinstance(o, int) and o in D and D[o][1][0] in ('getelementptr', 'bitcast'):
                o = D[o][1][4] if D[o][1][0] == 'getelementptr' else D[o][1][4][0]
            return o if isinstance(o, int) and o in D and D[o][1][0] == 'alloca' else None
        self.escaped = set()                     # local variables whose address is passed to a call or stored
        for b in fn.blocks:
            for ins in b:
                if ins[0] == 'call':
                    self.escaped.update(x for x in map(root, ins[5]) if x is not None)
                elif ins[0] == 'store' and root(ins[4]) is not None:
                    self.escaped.add(root(ins[4]))

    def epoch(self, a, s):
        """number of calls so far when a is in a local variable that calls can change"""
        for x, _ in a[1]:
            if x[0] == 'alloca' and x[1] in self.escaped:
                return len(s.calls)
        return 0

    def opnd(self, o, s):
        if isinstance(o, int):
            if o < len(self.fn.args):
                return self.consts.get(o) or atom(('arg', o))
            v = s.env.get(o)
            if v is None:
                v = self.before(o, s)
                s.env[o] = v
            return v
        k = o[0]
        if k == 'c':
            return const(o[1])
        if k == 'g':
            if self.prog.fn(o[1], self.fn.unit) is not None:
                return atom(('fn', o[1]))
            return off(atom(('g', o[1])), o[2] if len(o) > 2 else 0)
        if k == 'f':
            return atom(('f', o[1]))
        if k == 'null':
            return const(0)
        if k == 'ce':
            vs = [self.opnd(x, s) for x in o[2]]
            if o[1] in CASTS and len(vs) == 1:
                return vs[0]
            return atom(('ce', o[1]) + tuple(vs))
        return atom(('?', repr(o)))

    def before(self, o, s):
        """value of o, computed before the region being followed"""
        d = self.fn.defs.get(o)
        if d is not None and d[1][0] in ('getelementptr', 'alloca', 'add', 'sub', 'and', 'or') + CASTS or \
                d is not None and d[1][0] == 'load' and isinstance(d[1][4], list):
            t = State()
            t.env = s.env
            self.step(d[1], t)
            return t.env[o]
        return atom(('ssa', self.fn.name, o))

    def step(self, ins, s):
        """effect of one instruction on state s; returns 'stop' when control does not pass"""
        op, r = ins[0], ins[1]
        if op == 'load':
            a = self.opnd(ins[4], s)
            v = s.mem.get(a)
            if v is None:
                v = atom(('ld', a, self.epoch(a, s)))
            s.env[r] = v
            return None
        if op == 'store':
            a, v = self.opnd(ins[5], s), self.opnd(ins[4], s)
            s.mem[a] = v
            s.stores.append((a, v, ins))
            s.order.append(('store', a, v, ins))
            return None
        if op == 'getelementptr':
            v = off(self.opnd(ins[4], s), ins[5])
            for x, k in ins[6]:
                v = add(v, scale(self.opnd(x, s), k)) if not (isinstance(x, list) and x[0] == '?') else atom(('gep', r))
            s.env[r] = v
            return None
        if op == 'call':
            c = ir.callee(ins)
            args = tuple(self.opnd(o, s) for o in ins[5])
            s.calls.append((c, args, ins))
            s.order.append(('call', c, args, ins))
            if ins[6] or (c and self.prog.is_noreturn(c, self.fn.unit)):
                return 'stop'
            if c and c.startswith('llvm.mem'):
                s.stores.append((args[0], ('mem', args), ins))
            if self.clobber is not None:
                k = self.clobber(c)
                if k is not None:
                    for a in [a for a in s.mem if k(a)]:
                        del s.mem[a]
            if self.escaped:
                for a in [a for a in s.mem if self.epoch(a, s)]:
                    del s.mem[a]
            if r >= 0:
                s.env[r] = atom(('call', r, c))
            return None
        if r is None or r < 0:
            return None
        xs = ins[4] if op not in ('icmp', 'fcmp', 'alloca') else ins[5:7]
        if op == 'alloca':
            v = atom(('alloca', r))
        elif op in ('icmp', 'fcmp'):
            v = atom((op, ins[4], self.opnd(xs[0], s), self.opnd(xs[1], s)))
        elif op in ('extractvalue', 'insertvalue'):
            v = atom((op, r))
        else:
            vs = [self.opnd(o, s) for o in (xs if isinstance(xs, list) else [])]
            if op in CASTS or (op == 'trunc' and ins[2] != 'i1'):
                v = vs[0] if op != 'trunc' else (vs[0] if not vs[0][1] else atom(('trunc', ins[2], vs[0])))
            elif op == 'add':
                v = add(vs[0], vs[1])
            elif op == 'sub':
                v = add(vs[0], vs[1], -1)
            elif op == 'mul' and (not vs[0][1] or not vs[1][1]):
                v = scale(vs[1], vs[0][0]) if not vs[0][1] else scale(vs[0], vs[1][0])
            elif op == 'shl' and not vs[1][1] and 0 <= vs[1][0] < 64:
                v = scale(vs[0], 1 << vs[1][0])
            elif op == 'or' and not vs[1][1] and vs[1][0] == 0:
                v = vs[0]
            else:
                v = atom((op,) + tuple(vs))
        s.env[r] = v
        return None

    def paths(self, limit=400, start=0, init=None, cut=False):
        """states at every return of the acyclic paths (a back edge ends a path with end='loop'); with cut, a path also ends
        when it enters a loop: end='head', to=the loop, phi=the values its variables get"""
        fn = self.fn
        heads = fn.heads
        out = []
        work = [(start, None, init or State())]
        while work:
            b, prev, s = work.pop()
            if len(out) + len(work) > limit:
                raise Limit(fn.name)
            s.visited = s.visited + (b,)
            stop = False
            new = {}
            for ins in fn.blocks[b]:
                if ins[0] == 'phi':
                    if b in heads:
                        new[ins[1]] = atom(('phi', ins[1]))
                    else:
                        for pb, o in ins[4]:
                            if pb == prev:
                                new[ins[1]] = self.opnd(o, s)
                    continue
                if new:
                    s.env.update(new)
                    new = {}
                if ins[0] == 'ret':
                    s.ret = self.opnd(ins[4][0], s) if ins[4] else None
                    s.end = 'ret'
                    out.append(s)
                    stop = True
                    break
                if ins[0] in ('br', 'switch', 'unreachable'):
                    break
                if self.step(ins, s) == 'stop':
                    s.end = 'noreturn'
                    out.append(s)
                    stop = True
                    break
            if new:
                s.env.update(new)
            if stop:
                continue
            t = fn.blocks[b][-1]
            if t[0] == 'br' and len(t) > 5:
                c = self.opnd(t[4], s)
                nxt = [(t[5], (c, True)), (t[6], (c, False))] if t[5] != t[6] else [(t[5], None)]
            elif t[0] == 'br':
                nxt = [(t[4], None)]
            elif t[0] == 'switch':
                c = self.opnd(t[4], s)
                nxt = [(tb, (c, cv)) for cv, tb in t[6]] + [(t[5], (c, 'default'))]
                if not c[1]:
                    nxt = [(tb, None) for cv, tb in t[6] if cv == c[0]] or [(t[5], None)]
            else:
                s.end = 'stop'
                out.append(s)
                continue
            for i, (tb, fact) in enumerate(nxt):
                if cut and tb in heads:
                    e = s.copy()
                    e.end, e.to = 'head', tb
                    if fact is not None:
                        e.facts.append(fact)
                    e.phi = {x[1]: self.opnd(o, e) for x in fn.blocks[tb] if x[0] == 'phi' for pb, o in x[4] if pb == b}
                    out.append(e)
                    continue
                if tb in s.visited:
                    e = s.copy()
                    e.end = 'loop'
                    e.facts.append(fact)
                    out.append(e)
                    continue
                e = s.copy() if i < len(nxt) - 1 else s
                if fact is not None:
                    e.facts.append(fact)
                work.append((tb, b, e))
        return out

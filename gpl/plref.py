"""Do the clauses of a library predicate do what the clauses of a reference (spec/pl/*.pl) do?

The clauses of a predicate become a tree: what is called, in which order, the alternatives left, the tests that commit.
Cuts become if-then-else, unifications are solved where they occur, calls of predicates of the same file that are not
recursive are replaced by their clauses, what follows a choice is followed in each branch.  Two trees are compared up to
the names of the variables.  A difference counts when the trees agree up to one goal (another goal or argument, a goal,
a clause or a cut more or less); goals in another order, or other auxiliary predicates, leave it undecided."""
import itertools
import os

from . import plint, plread, prep
from .plread import A, C, S, V

SPEC = os.path.join(prep.VERIF, 'spec', 'pl')
NODES, DEPTH = 6000, 40
TESTS = {('var', 1), ('nonvar', 1), ('atom', 1), ('integer', 1), ('float', 1), ('number', 1), ('atomic', 1), ('compound', 1),
         ('callable', 1), ('==', 2), ('\\==', 2), ('<', 2), ('>', 2), ('=<', 2), ('>=', 2), ('=:=', 2), ('=\\=', 2),
         ('@<', 2), ('@>', 2), ('@=<', 2), ('@>=', 2), ('is_list', 1), ('list', 1), ('ground', 1), ('fd_var', 1), ('generic_var', 1)}
FLIP = {'>': '<', '>=': '=<', '@>': '@<', '@>=': '@=<'}
NEG = {'=<': '<', '@=<': '@<', '\\==': '==', '=\\=': '=:=', 'nonvar': 'var'}


class Big(Exception):
    pass


def key(t):
    return (t.name, t.arity if isinstance(t, C) else 0) if isinstance(t, (A, C)) else None


def variables(t, acc=None):
    acc = [] if acc is None else acc
    if isinstance(t, V):
        if t not in acc:
            acc.append(t)
    elif isinstance(t, C):
        for x in t.args:
            variables(x, acc)
    return acc


class Side:
    """the clauses of one side"""

    def __init__(self, preds):
        self.preds = preds
        self.calls = {k: self.callees(cl) for k, cl in preds.items()}
        self.rec = {k for k in preds if self.reaches(k)}

    def callees(self, clauses):
        r = set()
        for c in clauses:
            for g in plread.subgoals(c.body):
                k = key(g)
                if k in self.preds:
                    r.add(k)
        return r

    def reaches(self, k):
        seen, todo = set(), list(self.calls[k])
        while todo:
            x = todo.pop()
            if x == k:
                return True
            if x not in seen:
                seen.add(x)
                todo += self.calls[x]
        return False


class Tree:
    """the tree of a predicate"""

    def __init__(self, side, pk, keep=()):
        self.side, self.keep = side, keep
        self.n = itertools.count()
        self.count = 0
        self.cutleft = False
        self.params = [self.new() for _ in range(pk[1])]
        seen = tuple(self.params)
        self.root = self.pred(pk, self.params, (), {}, seen, 0)

    def new(self):
        return V('_%d' % next(self.n), 'n')

    # terms under a substitution
    def deref(self, t, s):
        while isinstance(t, V) and t in s:
            t = s[t]
        return t

    def app(self, t, s):
        t = self.deref(t, s)
        if isinstance(t, C):
            return C(t.name, [self.app(x, s) for x in t.args])
        return t

    def unify(self, a, b, s, seen):
        """s with a = b, or None; older variables stay"""
        a, b = self.deref(a, s), self.deref(b, s)
        if a == b and type(a) is type(b):
            return s
        if isinstance(a, V) and isinstance(b, V):
            ia = seen.index(a) if a in seen else 10 ** 6
            ib = seen.index(b) if b in seen else 10 ** 6
            if ia < ib:
                a, b = b, a
            return {**s, a: b}
        if isinstance(a, V):
            return {**s, a: b}
        if isinstance(b, V):
            return {**s, b: a}
        if isinstance(a, C) and isinstance(b, C) and a.name == b.name and a.arity == b.arity:
            for x, y in zip(a.args, b.args):
                s = self.unify(x, y, s, seen)
                if s is None:
                    return None
            return s
        return None

    # goals to run: a linked list (goal, rest); goals are terms, or ('u', a, b), ('end', leaf), ('pop',)
    def pred(self, pk, args, rest, s, seen, depth):
        """the clauses of pk called with args, then rest"""
        cls = []
        for c in self.side.preds[pk]:
            m = {}
            h = [self.rename(x, m) for x in (c.head.args if isinstance(c.head, C) else ())]
            eqs = [('u', a, x) for a, x in zip(args, h)]
            cls.append((eqs, self.rename(c.body, m)))
        if any(self.deepcut(b) for _, b in cls):
            self.cutleft = True
            alts = [self.go(self.listof(e + self.flat(b)) + rest, s, seen, depth) for e, b in cls]
            return ('scope', alt(alts, seen))
        return self.clauses(cls, rest, s, seen, depth)

    def listof(self, gs):
        return tuple(gs)

    def flat(self, b):
        return list(plread.conj(b))

    def deepcut(self, b):
        return any(self.hascut(g) for g in plread.conj(b) if not (isinstance(g, A) and g.name == '!'))

    def hascut(self, g):
        if isinstance(g, A):
            return g.name == '!'
        if isinstance(g, C) and g.name in (',', ';') and g.arity == 2:
            return any(self.hascut(x) for x in g.args)
        if isinstance(g, C) and g.name in ('->', '*->') and g.arity == 2:
            return self.hascut(g.args[1])
        return False

    def clauses(self, cls, rest, s, seen, depth):
        """alternatives, a cut commits to its clause"""
        out = []
        for i, (eqs, body) in enumerate(cls):
            gs = eqs + self.flat(body)
            k = next((j for j, g in enumerate(gs) if isinstance(g, A) and g.name == '!'), None)
            if k is None:
                out.append(self.go(tuple(gs) + rest, s, seen, depth))
                continue
            after = self.onces(gs[k + 1:])
            out.append(self.ite(tuple(gs[:k]), tuple(after), lambda: self.clauses(cls[i + 1:], rest, s, seen, depth), rest, s, seen, depth))
            break
        return alt(out, seen)

    def onces(self, gs):
        """g1, !, g2 where no clause is left"""
        for j in range(len(gs) - 1, -1, -1):
            if isinstance(gs[j], A) and gs[j].name == '!':
                return [('once', tuple(self.onces(gs[:j])))] + gs[j + 1:]
        return gs

    def ite(self, cond, then, els, rest, s, seen, depth, soft=False):
        """(cond -> then, rest ; els()) : els is made with its own rest"""
        leaves = []
        c = self.go(tuple(cond) + (('leaf', leaves),), s, seen, depth)
        if not leaves:
            t = ('fail',)
        else:
            s1, seen1 = leaves[0]
            if len(leaves) > 1:
                s1 = s
                for _, x in leaves:
                    seen1 = tuple(dict.fromkeys(seen1 + x))
            t = self.go(tuple(then) + rest, s1, seen1, depth)
        return mkite(c, t, els(), soft, seen)

    def rename(self, t, m):
        if isinstance(t, V):
            if t.name == '_':
                return self.new()
            if t not in m:
                m[t] = self.new()
            return m[t]
        if isinstance(t, C):
            return C(t.name, [self.rename(x, m) for x in t.args], t.line)
        return t

    def go(self, gs, s, seen, depth):
        self.count += 1
        if self.count > NODES or depth > DEPTH:
            raise Big()
        s0 = s
        i = 0
        while i < len(gs):                     # the unifications that come next
            g = gs[i]
            if isinstance(g, tuple) and g and g[0] == 'u' and type(g) is tuple:
                s = self.unify(g[1], g[2], s, seen)
            elif isinstance(g, C) and key(g) == ('=', 2):
                s = self.unify(g.args[0], g.args[1], s, seen)
            elif isinstance(g, A) and type(g) is A and g.name == 'true':
                pass
            elif isinstance(g, C) and g.name == ',' and g.arity == 2:
                gs = gs[:i] + tuple(self.flat(g)) + gs[i + 1:]
                continue
            else:
                break
            if s is None:
                return ('fail',)
            i += 1
        gs = gs[i:]
        evs = []
        for v in seen:                         # what becomes of variables met before
            if v in s and v not in s0:
                t = self.app(v, s)
                evs.append(('u', v, t))
        for _, v, t in evs:
            seen = tuple(dict.fromkeys(seen + tuple(variables(t))))
        n = self.next(gs, s, seen, depth)
        if n[0] == 'fail':
            return n
        for e in reversed(evs):
            n = ('ev', 'u', e[1], e[2], n)
        return n

    def next(self, gs, s, seen, depth):
        if not gs:
            return ('end',)
        g, rest = gs[0], gs[1:]
        if type(g) is tuple:
            if g[0] == 'leaf':
                g[1].append((s, seen))
                return ('yes',)
            if g[0] == 'once':
                return self.ite(g[1], (), lambda: ('fail',), rest, s, seen, depth)
        g = self.deref(g, s)
        if isinstance(g, V):
            g = C('call', [g])
        k = key(g)
        if k == ('!', 0):
            return ('ev', 'c', A('!'), None, self.go(rest, s, seen, depth))
        if k in (('fail', 0), ('false', 0)):
            return ('fail',)
        if k == (';', 2):
            l, r = g.args
            if isinstance(l, C) and l.name in ('->', '*->') and l.arity == 2:
                return self.ite(self.flat(l.args[0]), self.flat(l.args[1]), lambda: self.go(tuple(self.flat(r)) + rest, s, seen, depth), rest, s, seen, depth, l.name == '*->')
            return alt([self.go(tuple(self.flat(l)) + rest, s, seen, depth), self.go(tuple(self.flat(r)) + rest, s, seen, depth)], seen)
        if k == ('->', 2):
            return self.ite(self.flat(g.args[0]), self.flat(g.args[1]), lambda: ('fail',), rest, s, seen, depth)
        if k == ('*->', 2):
            return self.ite(self.flat(g.args[0]), self.flat(g.args[1]), lambda: ('fail',), rest, s, seen, depth, True)
        if k == ('\\+', 1):
            return self.ite(self.flat(g.args[0]), (C('fail', []) if False else A('fail'),), lambda: self.go(rest, s, seen, depth), (), s, seen, depth)
        if k in self.side.preds and k not in self.side.rec and k not in self.keep:
            return self.pred(k, g.args if isinstance(g, C) else (), rest, s, seen, depth + 1)
        t = self.app(g, s)
        known = evaluate(t)
        if known is True:
            return self.go(rest, s, seen, depth)
        if known is False:
            return ('fail',)
        if k[0] in FLIP and k[1] == 2:
            t = C(FLIP[k[0]], [t.args[1], t.args[0]])
        seen = tuple(dict.fromkeys(seen + tuple(variables(t))))
        return ('ev', 'c', t, None, self.go(rest, s, seen, depth))


def evaluate(t):
    k = key(t)
    if k is None or k not in TESTS:
        return None
    a = t.args[0]
    if k == ('==', 2) and t.args[0] == t.args[1]:
        return True
    if k[1] != 1 or isinstance(a, V):
        return None
    return {'var': False, 'nonvar': True, 'atom': isinstance(a, A), 'atomic': not isinstance(a, C), 'compound': isinstance(a, C), 'integer': isinstance(a, int),
            'callable': isinstance(a, (A, C))}.get(k[0])


def alt(ns, seen=()):
    out = []
    for n in ns:
        out += list(n[1:]) if n[0] == 'alt' else [] if n[0] == 'fail' else [n]
    i = 0
    while i + 1 < len(out):                 # alternatives that start alike
        m = start(out[i], out[i + 1], seen)
        if m is None:
            i += 1
            continue
        p, q = out[i], renamed(out[i + 1], m)
        out[i:i + 2] = [p[:4] + (alt([p[4], q[4]], seen + fresh(p, seen)),)]
    return ('fail',) if not out else out[0] if len(out) == 1 else ('alt',) + tuple(out)


def fresh(e, seen):
    return tuple(v for v in uses(e) if v not in seen)


def start(a, b, seen):
    """both start with the same unification or test: the renaming that makes them equal"""
    if not (a[0] == b[0] == 'ev' and a[1] == b[1]) or a[1] == 'c' and key(a[2]) not in TESTS:
        return None
    m = {}

    def same(x, y):
        if isinstance(x, V) and isinstance(y, V):
            if x in seen or y in seen:
                return x == y
            return m.setdefault(y, x) == x
        if isinstance(x, C) and isinstance(y, C):
            return x.name == y.name and x.arity == y.arity and all(same(p, q) for p, q in zip(x.args, y.args))
        return type(x) is type(y) and x == y
    ok = same(a[2], b[2]) and (a[1] == 'c' or same(a[3], b[3]))
    return m if ok and len(set(m.values())) == len(m) else None


def renamed(n, m):
    def t(x):
        if isinstance(x, V):
            return m.get(x, x)
        return C(x.name, [t(y) for y in x.args]) if isinstance(x, C) else x
    if n[0] == 'ev':
        return (n[0], n[1], t(n[2]), t(n[3]) if n[1] == 'u' else None, renamed(n[4], m))
    return (n[0],) + tuple(renamed(x, m) for x in n[1:])


def mkite(c, t, e, soft=False, seen=()):
    if c[0] == 'yes':
        return t if not soft else t
    if c[0] == 'fail':
        return e
    if c[0] == 'ev' and not soft:
        m = start(c, e, seen)
        if m is not None:
            e = renamed(e, m)
            return c[:4] + (mkite(c[4], t, e[4], soft, seen + fresh(c, seen)),)
        if c[1] == 'c' and key(c[2]) in TESTS and c[4] != ('yes',) and e == ('fail',):
            return c[:4] + (mkite(c[4], t, e, soft, seen + fresh(c, seen)),)
        if c[1] == 'u' and e == ('fail',):
            return c[:4] + (mkite(c[4], t, e, soft, seen + fresh(c, seen)),)
    if c[0] == 'ev' and c[1] == 'c' and c[4] == ('yes',) and not soft:
        k = key(c[2])
        if e == ('fail',) and k in TESTS:
            return c[:4] + (t,)
        if k in TESTS and k[0] in NEG:
            a = c[2].args
            if k[0] in ('=<', '@=<'):
                a = (a[1], a[0])
            return mkite(('ev', 'c', C(NEG[k[0]], a), None, ('yes',)), e, t, False, seen)
    if c[0] == 'ite' and c[2] == ('fail',) and c[3] == ('yes',) and pure(c[1]) and not soft:
        return mkite(c[1], e, t, False, seen)
    return ('soft' if soft else 'ite', c, t, e)


def pure(c):
    return c[0] == 'yes' or c[0] == 'ev' and c[1] == 'c' and key(c[2]) in TESTS and pure(c[4])


# comparison

class Diff(Exception):
    def __init__(self, text, bad):
        self.text, self.bad = text, bad


def show(t):
    if isinstance(t, A):
        return t.name
    if isinstance(t, V):
        return t.name
    if isinstance(t, S):
        return '"%s"' % (t.text,)
    if isinstance(t, C):
        return '%s(%s)' % (t.name, ','.join(show(x) for x in t.args))
    return str(t)


class Compare:
    def __init__(self, impl, ref, known):
        self.impl, self.ref, self.known = impl, ref, known      # sides; names that exist on both sides or outside
        self.assumed = {}

    def term(self, a, b, m, arith=False):
        """m: variables of the one -> variables of the other"""
        if isinstance(a, V) and isinstance(b, V):
            if a in m or b in m.inv:
                return m.get(a) == b
            m.put(a, b)
            return True
        if isinstance(a, C) and isinstance(b, C):
            if a.name != b.name or a.arity != b.arity:
                return False
            ar = arith or a.name in ('is', '<', '=<', '=:=') and a.arity == 2
            if ar and a.name in ('+', '*', '=:=') and a.arity == 2:
                k = m.mark()
                if self.term(a.args[0], b.args[0], m, ar) and self.term(a.args[1], b.args[1], m, ar):
                    return True
                m.undo(k)
                return self.term(a.args[0], b.args[1], m, ar) and self.term(a.args[1], b.args[0], m, ar)
            return all(self.term(x, y, m, ar) for x, y in zip(a.args, b.args))
        return type(a) is type(b) and a == b

    def foreign(self, t, side, other):
        """a goal of a predicate only one side has"""
        k = key(t)
        if side is self.impl and k and k[0].startswith('$call_c') and ('$call_c', key(t.args[0])) not in universe():
            return True                         # a C function the references do not mention
        return k in side.preds and k not in other.preds or side is self.impl and k not in other.preds and k[0].startswith('$') and k not in universe()

    def node(self, a, b, m):
        """a of the program, b of the reference"""
        if a[0] == 'ev' and b[0] == 'ev':
            return self.event(a, b, m)
        if a[0] == b[0]:
            if a[0] in ('end', 'yes', 'fail'):
                return
            if a[0] == 'scope':
                return self.node(a[1], b[1], m)
            if a[0] == 'ite':
                k = m.mark()
                try:
                    self.node(a[1], b[1], m)
                    self.node(a[2], b[2], m)
                    m.undo(k)
                    self.node(a[3], b[3], m)
                    return
                except Diff as d:
                    m.undo(k)
                    if not d.bad:
                        try:
                            self.branches(a, b, m)
                        except Diff as e:
                            d = e
                    raise d
                finally:
                    m.undo(k)
            if a[0] == 'soft':
                k = m.mark()
                self.node(a[1], b[1], m)
                self.node(a[2], b[2], m)
                m.undo(k)
                self.node(a[3], b[3], m)
                m.undo(k)
                return
            return self.branches(a, b, m)
        for x, y, s, o in ((a, b, self.impl, self.ref), (b, a, self.ref, self.impl)):
            if x[0] == 'ev' and x[1] == 'c' and self.foreign(x[2], s, o):
                raise Diff('another auxiliary predicate %s' % show(x[2]), False)
        if {a[0], b[0]} == {'ite', 'soft'}:
            raise Diff('the kind of an if-then-else differs', True)
        if a[0] in ('end', 'yes') and b[0] == 'ev':
            raise Diff('it does not %s' % what(b), True)
        if b[0] in ('end', 'yes') and a[0] == 'ev':
            raise Diff('it also has to %s' % what(a), True)
        if a[0] == 'fail':
            raise Diff('it fails%s' % (' where the reference has to ' + what(b) if b[0] == 'ev' else ' where the reference goes on'), b[0] in ('end', 'yes', 'ev'))
        if b[0] == 'fail':
            raise Diff('it does not fail', a[0] in ('end', 'yes', 'ev'))
        if a[0] == 'ev' and b[0] != 'ev' and a[4][0] == b[0] and self.equal(a[4], b, m):
            raise Diff('it also has to %s' % what(a), True)
        if b[0] == 'ev' and a[0] != 'ev' and b[4][0] == a[0] and self.equal(a, b[4], m):
            raise Diff('it does not %s' % what(b), True)
        if 'end' in (a[0], b[0]) and {a[0], b[0]} & {'ite', 'soft'}:
            raise Diff('it %s' % ('does nothing' if a[0] == 'end' else 'does more than the reference'), True)
        if a[0] in ('alt', 'ite') or b[0] in ('alt', 'ite'):
            return self.branches(a, b, m)
        raise self.other('the control differs', a, b)

    def branches(self, a, b, m):
        """alternatives and cases, one of the two sides possibly a single one"""
        x, y = parts(a), parts(b)
        eq = lambda p, q: p[0] == q[0] and self.equal(p[1], q[1], m) and (p[0] == '' or self.cut(p, q, m))
        loose = lambda p, q: eq(p, q) or self.equal(whole(p), whole(q), m)
        if len(x) == len(y):
            ds = [i for i in range(len(x)) if not eq(x[i], y[i])]
            if not ds:
                return
            if all(loose(x[i], y[i]) for i in ds):
                ex = all(apart([x[i]], x[i + 1:]) and tests((x[i] if x[i][0] == 'cut' else y[i])[1]) for i in ds)
                more = any(x[i][0] == '' for i in ds)
                raise Diff('it %s' % ('leaves alternatives that the reference cuts' if more else 'cuts alternatives that the reference leaves'), not ex)
            perm = []
            for p in x:
                j = next((j for j, q in enumerate(y) if j not in perm and loose(p, q)), None)
                if j is None:
                    break
                perm.append(j)
            if len(perm) == len(x):
                sw = [(x[i], x[j]) for i in range(len(x)) for j in range(i + 1, len(x)) if perm[i] > perm[j]]
                raise Diff('its alternatives come in another order', not all(apart([p], [q], False) for p, q in sw))
            if len(ds) == 1:
                p, q = x[ds[0]], y[ds[0]]
                k = m.mark()
                try:
                    if p[0] == q[0] == 'cut':
                        self.node(p[1], q[1], m)
                        self.node(p[2], q[2], m)
                    else:
                        self.node(whole(p), whole(q), m)
                finally:
                    m.undo(k)
            raise self.other('the alternatives differ', a, b)
        if len(x) != len(y):
            long, short, more = (x, y, True) if len(x) > len(y) else (y, x, False)
            i = 0
            for p in short:
                while i < len(long) and not (loose(long[i], p) if more else loose(p, long[i])):
                    i += 1
                if i == len(long):
                    raise self.other('the alternatives differ', a, b)
                i += 1
            raise Diff('it has %s' % ('a case more' if more else 'a case less'), True)
        raise self.other('the alternatives differ', a, b)

    def other(self, text, a, b):
        """bad if the goals show that one or two of them are replaced, missing or too many"""
        ga, gb = goals(a), goals(b)
        if any(x[1] == 'c' and self.foreign(x[2], s, o) for g, s, o in ((ga, self.impl, self.ref), (gb, self.ref, self.impl)) for x in g):
            return Diff('other auxiliary predicates', False)
        la, lb = {shape(x) for x in ga}, {shape(x) for x in gb}
        one, two = sorted(la - lb, key=repr), sorted(lb - la, key=repr)
        if one or two:
            text += ' (%s instead of %s)' % (', '.join(map(str, one)), ', '.join(map(str, two)))
        return Diff(text, 0 < len(one) + len(two) <= 2)

    def cut(self, p, q, m):
        k = m.mark()
        try:
            self.node(p[1], q[1], m)
            self.node(p[2], q[2], m)
            return True
        except Diff:
            return False
        finally:
            m.undo(k)

    def equal(self, a, b, m):
        k = m.mark()
        try:
            self.node(a, b, m)
            return True
        except Diff:
            return False
        finally:
            m.undo(k)

    def event(self, a, b, m):
        if a[1] == b[1] == 'u':
            k = m.mark()
            if self.term(a[2], b[2], m) and self.term(a[3], b[3], m):
                return self.node(a[4], b[4], m)
            m.undo(k)
            return self.moved(a, b, m)
        if a[1] == b[1] == 'c':
            k = m.mark()
            if self.term(a[2], b[2], m):
                return self.node(a[4], b[4], m)
            m.undo(k)
            ka, kb = key(a[2]), key(b[2])
            if ka != kb and ka[1] == kb[1] and (self.foreign(a[2], self.impl, self.ref) or self.foreign(b[2], self.ref, self.impl)):
                if ka in self.impl.preds and kb in self.ref.preds and self.same_pred(ka, kb) and \
                        all(self.term(x, y, m) for x, y in zip(getattr(a[2], 'args', ()), getattr(b[2], 'args', ()))):
                    return self.node(a[4], b[4], m)
                m.undo(k)
        return self.moved(a, b, m)

    def same_pred(self, ka, kb):
        if (ka, kb) in self.assumed:
            return self.assumed[ka, kb]
        self.assumed[ka, kb] = True
        try:
            ok = compare(self.impl, ka, self.ref, kb, self.known, self) is None
        except Big:
            ok = False
        self.assumed[ka, kb] = ok
        return ok

    def moved(self, a, b, m):
        """two goals that differ: replaced, left out, added, or elsewhere?"""
        for x, s, o in ((a, self.impl, self.ref), (b, self.ref, self.impl)):
            if x[1] == 'c' and self.foreign(x[2], s, o):
                raise Diff('another auxiliary predicate %s' % show(x[2]), False)
        ga, gb = goals(a), goals(b)
        if any(x[1] == 'c' and self.foreign(x[2], s, o) for g, s, o in ((ga, self.impl, self.ref), (gb, self.ref, self.impl)) for x in g):
            raise Diff('other auxiliary predicates', False)
        la, lb = [shape(x) for x in ga], [shape(x) for x in gb]
        if shape(a) in lb[1:] and shape(b) in la[1:] and sorted(la, key=repr) == sorted(lb, key=repr):
            raise Diff('its goals come in another order: %s before %s' % (show(a[2]), show(next(x for x in ga[1:] if shape(x) == shape(b))[2])), self.ordered(ga, shape(b), gb[0]))
        if self.equal(a, b[4], m) if b[4][0] != 'end' or a[0] == 'end' else False:
            raise Diff('it does not %s' % what(b), True)
        if self.equal(a[4], b, m):
            raise Diff('it also has to %s' % what(a), True)
        if a[1] == b[1] and shape(a) == shape(b):
            raise Diff('it has to %s instead of %s' % (what(a), what(b)), True)
        d = {x for x in la + lb if la.count(x) != lb.count(x)}
        raise Diff('it has to %s instead of %s' % (what(a), what(b)), len(d) <= 2)

    def ordered(self, ga, sb, b):
        """does the order of the first goal and the later one of shape sb matter?"""
        a = ga[0]
        j = next(i for i in range(1, len(ga)) if shape(ga[i]) == sb)
        b = ga[j]
        va, vb = set(uses(a)), set(uses(b))
        if a[1] == b[1] == 'u' and a[2].name in self.old and b[2].name in self.old:
            return True
        if a[1] == 'c' and b[1] == 'c' and not (key(a[2]) in TESTS or key(b[2]) in TESTS) and (key(a[2]) in self.impl.rec or key(b[2]) in self.impl.rec):
            return True
        if a[1] == 'c' and b[1] == 'c' and (key(a[2]) == ('set_bip_name', 2)) != (key(b[2]) == ('set_bip_name', 2)) and not (key(a[2]) in TESTS or key(b[2]) in TESTS):
            return True
        if a[1] == b[1] == 'c' and not {key(a[2])[0], key(b[2])[0]} - EFFECTS - ANY and ({key(a[2])[0], key(b[2])[0]} & ANY or {key(a[2])[0], key(b[2])[0]} <= OUTPUT):
            return True
        return any(v.name not in self.old for v in va & vb) or \
            any(key(x[2]) in TESTS and key(x[2])[1] == 1 and set(uses(x)) & set(uses(y)) for x, y in ((a, b), (b, a)) if x[1] == 'c')


#: goals that may do anything, fail or throw, and goals that leave something behind: neither may pass the other
ANY = {'call', '$call_internal', '$call_internal_with_cut', 'once', '$call', '$call_det', '$call_internal_or', '$call_last_sol', '$call_from_debugger', 'throw', '$unwind', 'halt', 'abort', '$catch_internal', '$catch', 'catch', '$exec_cmd', '$exec_directive'}
OUTPUT = {'write', 'writeq', 'print', 'nl', 'put_char', 'put_byte', 'display', 'write_canonical', 'write_term', 'format', 'tab'}
EFFECTS = OUTPUT | {'$sys_var_put', '$sys_var_write', '$sys_var_inc', '$sys_var_dec', '$sys_var_set_bit', '$sys_var_reset_bit', 'g_assign', 'g_assignb', 'g_link', 'g_inc', 'g_dec', 'asserta', 'assertz', 'retract', 'retractall', 'abolish',
                    'close', 'set_input', 'set_output', 'set_prolog_flag', 'op'}


def what(e):
    return 'unify %s with %s' % (show(e[2]), show(e[3])) if e[1] == 'u' else 'call %s' % show(e[2])


def shape(e):
    if e[1] == 'u':
        return ('=',) + (('v',) if isinstance(e[3], V) else key(e[3]) or (str(e[3]),))
    return ('c',) + key(e[2])


def goals(n):
    """the goals of a path"""
    r = []
    while n[0] == 'ev':
        r.append(n)
        n = n[4]
    if n[0] in ('alt', 'ite', 'soft', 'scope'):
        for x in n[1:]:
            r += goals(x)
    return r


def join(c, t):
    """c, then t at its end"""
    if c[0] == 'yes':
        return t
    if c[0] == 'ev':
        x = join(c[4], t)
        return None if x is None else c[:4] + (x,)
    if c[0] == 'alt':
        xs = [join(x, t) for x in c[1:]]
        return None if None in xs else alt(xs)
    if c[0] == 'fail':
        return c
    return None


def parts(n):
    """the alternatives of n: ('', tree) or ('cut', condition, tree)"""
    if n[0] == 'alt':
        return [p for x in n[1:] for p in parts(x)]
    if n[0] == 'ite':
        return [('cut', n[1], n[2])] + parts(n[3])
    return [] if n[0] == 'fail' else [('', n)]


def whole(p):
    if p[0] == '':
        return p[1]
    return join(p[1], p[2]) or ('ite', p[1], p[2], ('fail',))


def tests(c):
    """c leaves no alternatives"""
    return c[0] == 'yes' or c[0] == 'ev' and (c[1] == 'u' or key(c[2]) in TESTS) and tests(c[4])


def apart(xs, ys, bound=True):
    """no two of them can both hold, as their first unifications (of arguments that are bound) or tests show"""
    def first(p):
        n = whole(p)
        r = []
        while n[0] == 'ev' and (n[1] == 'u' or key(n[2]) in TESTS):
            r.append(n)
            n = n[4]
        return r

    def clash(e, f):
        if e[1] == f[1] == 'u':
            return bound and e[2] == f[2] and not isinstance(e[3], V) and not isinstance(f[3], V) and (key(e[3]) or e[3]) != (key(f[3]) or f[3])
        if e[1] == f[1] == 'c' and getattr(e[2], 'args', 0) == getattr(f[2], 'args', 1):
            return NEG.get(e[2].name) == f[2].name or NEG.get(f[2].name) == e[2].name or {e[2].name, f[2].name} <= {'var', 'atom', 'integer', 'float', 'compound'} and e[2].name != f[2].name
        return False
    return all(any(clash(e, f) for e in first(x) for f in first(y)) for x in xs for y in ys)


def uses(e):
    return variables(e[2]) + (variables(e[3]) if e[1] == 'u' else [])


class Map(dict):
    def __init__(self):
        super().__init__()
        self.inv, self.log = {}, []

    def put(self, a, b):
        self[a] = b
        self.inv[b] = a
        self.log.append(a)

    def mark(self):
        return len(self.log)

    def undo(self, k):
        while len(self.log) > k:
            self.inv.pop(self.pop(self.log.pop()))


def compare(impl, ik, ref, rk, known=(), cmp=None):
    """None, or the Diff"""
    ti, tr = Tree(impl, ik, ref.rec), Tree(ref, rk, impl.rec)
    c = cmp or Compare(impl, ref, known)
    c.old = {v.name for v in ti.params}
    m = Map()
    for x, y in zip(ti.params, tr.params):
        m.put(x, y)
    try:
        c.node(ti.root, tr.root, m)
    except Diff as d:
        return d
    return None


def alike(ca, cb):
    """the same clauses up to the names of the variables"""
    def t(a, b, m, r):
        if isinstance(a, V) and isinstance(b, V):
            return m.setdefault(a, b) == b and r.setdefault(b, a) == a
        if isinstance(a, C) and isinstance(b, C):
            return a.name == b.name and a.arity == b.arity and all(t(x, y, m, r) for x, y in zip(a.args, b.args))
        return type(a) is type(b) and a == b
    if len(ca) != len(cb):
        return False
    for x, y in zip(ca, cb):
        m, r = {}, {}
        if not (t(x.head, y.head, m, r) and t(x.body, y.body, m, r)):
            return False
    return True


def side(paths):
    preds = {}
    for p in paths:
        for k, cl in plread.PlFile(p).preds.items():
            preds.setdefault(k, []).extend(cl)
    return Side(preds)


_universe = None


def universe():
    """every predicate the references define or call"""
    global _universe
    if _universe is None:
        _universe = set()
        for p in sorted(os.path.join(d, x) for d, _, fs in os.walk(SPEC) for x in fs):
            for k, cl in plread.PlFile(p).preds.items():
                _universe.add(k)
                for c in cl:
                    for g in plread.subgoals(c.body):
                        _universe.add(key(g))
                        if isinstance(g, C) and g.name.startswith('$call_c'):
                            _universe.add(('$call_c', key(g.args[0])))
    return _universe


def check(rep, files, only=None, but=()):
    """files: ['BipsPl/list.pl', ...], each against spec/pl/<name>"""
    for f in files:
        path = os.path.join(prep.SRC, f)
        rf = os.path.join(SPEC, f)
        impl, ref = side([path]), side([rf if os.path.exists(rf) else os.path.join(SPEC, os.path.basename(f))])
        for k in sorted(ref.preds):
            if only and k not in only or k in but:
                continue
            if k not in impl.preds:
                if k[0].startswith('$'):
                    continue
                text = '%s: %s/%d: it is not defined' % (os.path.relpath(path, prep.REPO), k[0], k[1])
                if k in plint.library().preds:
                    rep.undecided.append(text + ' there')
                else:
                    rep.violation('%s/%d' % k, text)
                continue
            rep.count(predicates=1, clauses=len(impl.preds[k]))
            line = impl.preds[k][0].line
            if alike(impl.preds[k], ref.preds[k]):
                rep.count(predicates_proved=1, same_clauses=1)
                continue
            try:
                d = compare(impl, k, ref, k)
            except Big:
                rep.undecided.append('%s/%d: too many branches' % k)
                continue
            if d is None:
                rep.count(predicates_proved=1)
            elif d.bad:
                rep.violation('%s/%d' % k, '%s:%d: %s/%d: %s' % (os.path.relpath(path, prep.REPO), line, k[0], k[1], d.text))
            else:
                rep.undecided.append('%s/%d: %s' % (k[0], k[1], d.text))
    rep.need(rep.cov.get('predicates', 0), 1, 'predicates of the library')

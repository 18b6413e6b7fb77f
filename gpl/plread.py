"""A reader for the Prolog sources of the library (standard operators + op/3 directives met on the way).

Terms: Atom str -> A(name); integers/floats -> Python numbers; variables -> V(name, id); compounds -> C(name, args)
strings ("...") -> S(text)."""
import collections

A = collections.namedtuple('A', 'name')
V = collections.namedtuple('V', 'name id')
S = collections.namedtuple('S', 'text')


class C:
    __slots__ = ('name', 'args', 'line')

    def __init__(self, name, args, line=0):
        self.name = name
        self.args = tuple(args)
        self.line = line

    @property
    def arity(self):
        return len(self.args)

    def __repr__(self):
        return '%s(%s)' % (self.name, ','.join(map(repr, self.args)))

    def __eq__(self, o):
        return isinstance(o, C) and self.name == o.name and self.args == o.args

    def __hash__(self):
        return hash((self.name, self.args))


class ReadError(Exception):
    pass


OPS_PRE = {':-': (1200, 'fx'), '?-': (1200, 'fx'), 'dynamic': (1150, 'fx'), '\\+': (900, 'fy'), '-': (200, 'fy'),
           '+': (200, 'fy'), '\\': (200, 'fy'), 'public': (1150, 'fx'), '#\\': (750, 'fy')}
OPS_IN = {}
for _p, _t, _l in ((1200, 'xfx', ':- -->'), (1100, 'xfy', '; |'), (1105, 'xfy', '|'), (1050, 'xfy', '-> *->'),
                   (1000, 'xfy', ','), (700, 'xfx', '= \\= == \\== @< @=< @> @>= =.. is =:= =\\= < =< > >= :='),
                   (600, 'xfy', ':'), (500, 'yfx', '+ - /\\ \\/ xor'),
                   (400, 'yfx', '* / // rem mod << >> div rdiv divmod tdiv'), (200, 'xfx', '**'), (200, 'xfy', '^'),
                   (800, 'xfy', '#<=> #\\<=>'), (750, 'xfy', '#==> #\\==>'), (740, 'xfy', '##'), (730, 'yfx', '#\\/ #\\\\/'),
                   (720, 'yfx', '#/\\ #\\/\\'),
                   (700, 'xfx', '#= #\\= #< #=< #> #>= #=# #\\=# #<# #=<# #># #>=#')):
    for _n in _l.split():
        OPS_IN[_n] = (_p, _t)
OPS_IN['|'] = (1100, 'xfy')

SYM = set('+-*/\\^<>=~:.?@#&$')
ESC = {'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v', '0': '\0', '\\': '\\', "'": "'",
       '"': '"', '`': '`', 'e': '\x1b', 's': ' '}


class Lexer:
    def __init__(self, text, fname):
        self.t = text
        self.i = 0
        self.line = 1
        self.f = fname

    def err(self, m):
        raise ReadError('%s:%d: %s' % (self.f, self.line, m))

    def skip(self):
        t, n = self.t, len(self.t)
        while self.i < n:
            c = t[self.i]
            if c == '\n':
                self.line += 1
                self.i += 1
            elif c.isspace():
                self.i += 1
            elif c == '%':
                while self.i < n and t[self.i] != '\n':
                    self.i += 1
            elif c == '/' and t.startswith('/*', self.i):
                j = t.find('*/', self.i + 2)
                if j < 0:
                    self.err('unterminated comment')
                self.line += t.count('\n', self.i, j)
                self.i = j + 2
            else:
                return

    def quoted(self, q):
        t = self.t
        self.i += 1
        r = []
        while True:
            if self.i >= len(t):
                self.err('unterminated quoted')
            c = t[self.i]
            if c == q:
                if t.startswith(q + q, self.i):
                    r.append(q)
                    self.i += 2
                    continue
                self.i += 1
                return ''.join(r)
            if c == '\\':
                self.i += 1
                r.append(self.escape())
                continue
            if c == '\n':
                self.line += 1
            r.append(c)
            self.i += 1

    def escape(self):
        t = self.t
        c = t[self.i]
        if c == '\n':
            self.line += 1
            self.i += 1
            return ''
        if c == 'x':
            j = self.i + 1
            while t[j] in '0123456789abcdefABCDEF':
                j += 1
            v = int(t[self.i + 1:j], 16)
            self.i = j + 1 if t[j] == '\\' else j
            return chr(v)
        if c.isdigit():
            j = self.i
            while t[j] in '01234567':
                j += 1
            v = int(t[self.i:j], 8)
            self.i = j + 1 if t[j] == '\\' else j
            return chr(v)
        self.i += 1
        if c in ESC:
            return ESC[c]
        self.err('bad escape \\%s' % c)

    def next(self):
        """(kind, value, layout_before, line)"""
        start = self.i
        self.skip()
        lay = self.i > start
        t = self.t
        if self.i >= len(t):
            return ('eof', None, lay, self.line)
        c = t[self.i]
        ln = self.line
        if c.isdigit():
            return self.number(lay, ln)
        if c == '_' or c.isupper():
            j = self.i
            while j < len(t) and (t[j].isalnum() or t[j] == '_'):
                j += 1
            s = t[self.i:j]
            self.i = j
            return ('var', s, lay, ln)
        if c.isalpha():
            j = self.i
            while j < len(t) and (t[j].isalnum() or t[j] == '_'):
                j += 1
            s = t[self.i:j]
            self.i = j
            return ('atom', s, lay, ln)
        if c == "'":
            return ('qatom', self.quoted("'"), lay, ln)
        if c == '"':
            return ('str', self.quoted('"'), lay, ln)
        if c == '`':
            return ('bq', self.quoted('`'), lay, ln)
        if c in '()[]{},|':
            if c == '|' and t.startswith('||', self.i):
                self.i += 2
                return ('atom', '||', lay, ln)
            self.i += 1
            return ('punct', c, lay, ln)
        if c == '!' or c == ';':
            self.i += 1
            return ('atom', c, lay, ln)
        if c in SYM:
            j = self.i
            while j < len(t) and t[j] in SYM:
                j += 1
            s = t[self.i:j]
            if s == '.' and (j >= len(t) or t[j].isspace() or t[j] == '%'):
                self.i = j
                return ('end', '.', lay, ln)
            self.i = j
            return ('atom', s, lay, ln)
        self.err('unexpected char %r' % c)

    def number(self, lay, ln):
        t = self.t
        i = self.i
        if t[i] == '0' and i + 1 < len(t):
            c = t[i + 1]
            if c == "'":
                if t[i + 2] == '\\':
                    self.i = i + 3
                    s = self.escape()
                    return ('num', ord(s), lay, ln)
                if t.startswith("''", i + 2):
                    self.i = i + 4
                    return ('num', 39, lay, ln)
                self.i = i + 3
                return ('num', ord(t[i + 2]), lay, ln)
            for p, b, ds in (('x', 16, '0123456789abcdefABCDEF'), ('o', 8, '01234567'), ('b', 2, '01')):
                if c == p and t[i + 2] in ds:
                    j = i + 2
                    while t[j] in ds:
                        j += 1
                    self.i = j
                    return ('num', int(t[i + 2:j], b), lay, ln)
        j = i
        while j < len(t) and (t[j].isdigit() or (t[j] == '_' and j + 1 < len(t) and t[j + 1].isdigit())):
            j += 1
        if j + 1 < len(t) and t[j] == '.' and t[j + 1].isdigit():
            j += 1
            while t[j].isdigit():
                j += 1
            if t[j] in 'eE':
                k = j + 1
                if t[k] in '+-':
                    k += 1
                if t[k].isdigit():
                    while t[k].isdigit():
                        k += 1
                    j = k
            self.i = j
            return ('num', float(t[i:j]), lay, ln)
        self.i = j
        return ('num', int(t[i:j].replace('_', '')), lay, ln)


class Parser:
    def __init__(self, text, fname='?'):
        self.lx = Lexer(text, fname)
        self.pre = dict(OPS_PRE)
        self.inf = dict(OPS_IN)
        self.tok = None
        self.vid = 0
        self.adv()

    def adv(self):
        self.tok = self.lx.next()

    def peek_open(self):
        """is the token directly followed by '(' ?"""
        return self.lx.i < len(self.lx.t) and self.lx.t[self.lx.i] == '('

    def read(self):
        """next clause: (term, line, varmap) or None"""
        if self.tok[0] == 'eof':
            return None
        self.vars = {}
        line = self.tok[3]
        t, _ = self.parse(1200)
        if self.tok[0] != 'end':
            self.lx.err('operator expected, got %r' % (self.tok,))
        self.adv()
        if isinstance(t, C) and t.name == ':-' and t.arity == 1 and isinstance(t.args[0], C) and t.args[0].name == 'op' and t.args[0].arity == 3:
            self.do_op(*t.args[0].args)
        return t, line, self.vars

    def do_op(self, p, ty, n):
        names = []
        if isinstance(n, A):
            names = [n.name]
        else:
            while isinstance(n, C) and n.name == '.':
                names.append(n.args[0].name)
                n = n.args[1]
        for x in names:
            if ty.name in ('fx', 'fy'):
                if p:
                    self.pre[x] = (p, ty.name)
                else:
                    self.pre.pop(x, None)
            else:
                if p:
                    self.inf[x] = (p, ty.name)
                else:
                    self.inf.pop(x, None)

    def isterm_start(self):
        k, v = self.tok[0], self.tok[1]
        if k in ('end', 'eof'):
            return False
        if k == 'punct' and v in (')', ']', '}', ',', '|'):
            return False
        if k == 'atom' and v in self.inf and v not in self.pre and not self.peek_open():
            return False
        return True

    def parse(self, maxp):
        left, lp = self.primary(maxp)
        return self.infix(left, lp, maxp)

    def infix(self, left, lp, maxp):
        while True:
            k, v = self.tok[0], self.tok[1]
            line = self.tok[3]
            if k == 'punct' and v == ',':
                name = ','
            elif k == 'punct' and v == '|':
                name = '|'
            elif k == 'atom':
                name = v
            else:
                return left, lp
            if name not in self.inf:
                return left, lp
            p, ty = self.inf[name]
            la = p if ty[0] == 'y' else p - 1
            ra = p if ty[2] == 'y' else p - 1
            if p > maxp or lp > la:
                return left, lp
            self.adv()
            right, _ = self.parse(ra)
            if name == '|':
                name = ';'
            left, lp = C(name, (left, right), line), p

    def primary(self, maxp):
        k, v, lay, line = self.tok
        if k == 'num':
            self.adv()
            return v, 0
        if k == 'var':
            self.adv()
            if v == '_':
                self.vid += 1
                return V('_', self.vid), 0
            x = self.vars.get(v)
            if x is None:
                self.vid += 1
                x = self.vars[v] = V(v, self.vid)
            return x, 0
        if k == 'str' or k == 'bq':
            self.adv()
            return S(v), 0
        if k == 'punct':
            if v == '(':
                self.adv()
                t, _ = self.parse(1200)
                self.expect(')')
                return t, 0
            if v == '[':
                self.adv()
                if self.tok[:2] == ('punct', ']'):
                    return self.atom_or_compound('[]', line, maxp)
                items = [self.parse(999)[0]]
                while self.tok[:2] == ('punct', ','):
                    self.adv()
                    items.append(self.parse(999)[0])
                tail = A('[]')
                if self.tok[:2] == ('punct', '|'):
                    self.adv()
                    tail = self.parse(999)[0]
                self.expect(']')
                for x in reversed(items):
                    tail = C('.', (x, tail), line)
                return tail, 0
            if v == '{':
                self.adv()
                if self.tok[:2] == ('punct', '}'):
                    return self.atom_or_compound('{}', line, maxp)
                t, _ = self.parse(1200)
                self.expect('}')
                return C('{}', (t,), line), 0
            self.lx.err('unexpected %r' % v)
        if k in ('atom', 'qatom'):
            return self.atom_or_compound(v, line, maxp, k == 'qatom')
        self.lx.err('unexpected token %r' % (self.tok,))

    def expect(self, p):
        if self.tok[:2] != ('punct', p):
            self.lx.err('expected %s got %r' % (p, self.tok))
        self.adv()

    def atom_or_compound(self, name, line, maxp, quoted=False):
        if self.peek_open():
            self.adv()
            self.adv()
            args = [self.parse(999)[0]]
            while self.tok[:2] == ('punct', ','):
                self.adv()
                args.append(self.parse(999)[0])
            self.expect(')')
            return C(name, args, line), 0
        self.adv()
        if name == '-' and not quoted and self.tok[0] == 'num' and not self.tok[2]:
            v = self.tok[1]
            self.adv()
            return -v, 0
        if name in self.pre and not quoted:
            p, ty = self.pre[name]
            if self.isterm_start():
                # an infix operator after a prefix operator used as an atom
                if self.tok[0] == 'atom' and self.tok[1] in self.inf and not self.peek_open() and self.tok[1] not in self.pre:
                    return A(name), p if p <= maxp else 0
                if p > maxp:
                    p = 999
                ap = p if ty == 'fy' else p - 1
                save = (self.lx.i, self.lx.line, self.tok)
                try:
                    t, _ = self.parse(ap)
                    return C(name, (t,), line), p
                except ReadError:
                    self.lx.i, self.lx.line, self.tok = save
            return A(name), 0
        return A(name), (self.inf[name][0] if name in self.inf and self.inf[name][0] <= maxp else 0)


Clause = collections.namedtuple('Clause', 'head body line')


class PlFile:
    def __init__(self, path):
        self.path = path
        with open(path, encoding='latin-1') as f:
            text = f.read()
        p = Parser(text, path)
        self.terms = []
        while True:
            r = p.read()
            if r is None:
                break
            self.terms.append((r[0], r[1]))
        self.preds = {}
        self.directives = []
        for t, ln in self.terms:
            if isinstance(t, C) and t.name == ':-' and t.arity == 1:
                self.directives.append((t.args[0], ln))
                continue
            if isinstance(t, C) and t.name == ':-' and t.arity == 2:
                h, b = t.args
            elif isinstance(t, C) and t.name == '-->' and t.arity == 2:
                h, b = grammar(t)
            else:
                h, b = t, A('true')
            key = (h.name, h.arity if isinstance(h, C) else 0) if not isinstance(h, (int, float, V)) else None
            if key:
                self.preds.setdefault(key, []).append(Clause(h, b, ln))


def grammar(t):
    """head and body of the clause a grammar rule stands for"""
    n = [0]

    def new():
        n[0] += 1
        return V('S#%d' % n[0], 'dcg')

    def terminals(x, tail):
        if isinstance(x, C) and x.name == '.' and x.arity == 2:
            return C('.', [x.args[0], terminals(x.args[1], tail)])
        return tail

    def body(b, i, o):
        k = pi(b)
        if k in ((',', 2), ('->', 2)):
            m = new()
            return C(b.name, [body(b.args[0], i, m), body(b.args[1], m, o)])
        if k in ((';', 2), ('|', 2)):
            return C(';', [body(x, i, o) for x in b.args])
        if k == ('\\+', 1):
            return C(',', [C('\\+', [body(b.args[0], i, new())]), C('=', [i, o])])
        if k == ('{}', 1):
            return C(',', [b.args[0], C('=', [i, o])])
        if k in (('!', 0), ('{}', 0)):
            return C(',', [b if k[0] == '!' else A('true'), C('=', [i, o])])
        if k == ('[]', 0):
            return C('=', [i, o])
        if k == ('.', 2):
            return C('=', [i, terminals(b, o)])
        if isinstance(b, S):
            return C('string', [b, i, o])
        if k is None:
            return C('phrase', [b, i, o])
        return C(k[0], list(getattr(b, 'args', ())) + [i, o], getattr(b, 'line', 0))

    h, b = t.args
    i, o = new(), new()
    if pi(h) == (',', 2):
        m = new()
        return C(pi(h.args[0])[0], list(getattr(h.args[0], 'args', ())) + [i, o]), C(',', [body(b, i, m), C('=', [o, terminals(h.args[1], m)])])
    return C(pi(h)[0], list(getattr(h, 'args', ())) + [i, o]), body(b, i, o)


def conj(t):
    while isinstance(t, C) and t.name == ',' and t.arity == 2:
        yield from conj(t.args[0])
        t = t.args[1]
    yield t


def subgoals(t):
    """all goals of a body, through control constructs"""
    if isinstance(t, C) and t.name in (',', ';', '->', '*->') and t.arity == 2:
        yield from subgoals(t.args[0])
        yield from subgoals(t.args[1])
    elif isinstance(t, C) and t.name == '\\+' and t.arity == 1:
        yield from subgoals(t.args[0])
    else:
        yield t


def pi(t):
    if isinstance(t, C):
        return (t.name, t.arity)
    if isinstance(t, A):
        return (t.name, 0)
    return None


def ltoks(t):
    r = []
    while isinstance(t, C) and t.name == '.':
        r.append(t.args[0])
        t = t.args[1]
    return r

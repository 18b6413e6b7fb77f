"""Reader for the .fd constraint definitions (see src/Fd2C/FD_SYNTAX)."""
import re

TOK = re.compile(r'\s+|/\*.*?\*/|(?P<num>\d+)|(?P<id>[A-Za-z_]\w*)|(?P<op>\.\.|\+\+|--|\*\*|//|%%|/<|/>|&&|\|\||==|!=|\\=|<=|>=|[-+*/%:&~{}(),<>=!?])', re.S)


class FdSyntax(Exception):
    pass


class Rule:
    """start (name) V in R [trigger ...] [always], or start c_fct(...)"""
    def __init__(s, line, name, var, range_, call, trig, always):
        s.line, s.name, s.var, s.range, s.call, s.trig, s.always = line, name, var, range_, call, trig, always


class Case:
    def __init__(s, line, cond, stops, rules):
        s.line, s.cond, s.stops, s.rules = line, cond, stops, rules


class Cstr:
    def __init__(s, file, line, name, params, rules, cases):
        s.file, s.line, s.name, s.params, s.rules, s.cases = file, line, name, params, rules, cases

    def type(s, v):
        return dict((b, a) for a, b in s.params).get(v)


class Parser:
    def __init__(p, text, file):
        p.file = file
        p.t = []
        # C blocks
        p.cblocks = re.findall(r'%\{(.*?)%\}', text, re.S)
        text = re.sub(r'%\{.*?%\}', lambda m: '\n' * m.group(0).count('\n'), text, flags=re.S)
        i, line = 0, 1
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise FdSyntax('%s:%d: unexpected %r' % (file, line, text[i:i + 10]))
            k = m.lastgroup
            if k:
                p.t.append((m.group(0), k, line))
            line += m.group(0).count('\n')
            i = m.end()
        p.t.append(('<eof>', 'eof', line))
        p.i = 0

    def pk(p):
        return p.t[p.i][0]

    def line(p):
        return p.t[p.i][2]

    def err(p, what):
        raise FdSyntax('%s:%d: %s at %r' % (p.file, p.line(), what, p.pk()))

    def nx(p, want=None):
        t = p.t[p.i]
        if want is not None and t[0] != want:
            p.err('expected %r' % want)
        p.i += 1
        return t[0]

    def ident(p):
        if p.t[p.i][1] != 'id':
            p.err('expected a name')
        return p.nx()

    def all(p):
        r = []
        while p.pk() != '<eof>':
            r.append(p.cstr())
        return r

    def cstr(p):
        line = p.line()
        name = p.ident()
        p.nx('(')
        params = []
        while True:
            ty = p.ident()
            params.append((ty, p.ident()))
            if p.pk() == ',':
                p.nx()
            else:
                break
        p.nx(')')
        p.nx('{')
        rules, cases = [], []
        while p.pk() == 'start':
            rules.append(p.rule())
        if p.pk() == 'wait_switch':
            p.nx()
            while p.pk() == 'case':
                cl = p.line()
                p.nx()
                cond = p.expr()
                stops = []
                while p.pk() == 'stop':
                    p.nx()
                    stops.append(p.ident())
                rs = []
                while p.pk() == 'start':
                    rs.append(p.rule())
                cases.append(Case(cl, cond, stops, rs))
        p.nx('}')
        return Cstr(p.file, line, name, params, rules, cases)

    def rule(p):
        line = p.line()
        p.nx('start')
        name = None
        if p.pk() == '(':
            p.nx()
            name = p.ident()
            p.nx(')')
        v = p.ident()
        trig, always, rng, call = None, False, None, None
        if p.pk() == 'in':
            p.nx()
            rng = p.expr()
        elif p.pk() == '(':
            p.i -= 1
            call = p.expr()
            v = None
        else:
            p.err('unsupported element')
        if p.pk() == 'trigger':
            p.nx()
            also = p.pk() == 'also'
            if also:
                p.nx()
            p.nx('on')
            trig = [also]
            while True:
                what = p.ident()
                p.nx('(')
                trig.append((what, p.ident()))
                p.nx(')')
                if p.pk() != ',':
                    break
                p.nx()
        if p.pk() == 'always':
            p.nx()
            always = True
        return Rule(line, name, v, rng, call, trig, always)

    # ranges and terms are distinguished by the evaluation
    LEVELS = [[':'], ['&'], ['++', '--'], ['**', '//', '%%'], ['..'], ['||'], ['&&'],
              ['=', '==', '!=', '\\=', '<', '<=', '>', '>='], ['+', '-'], ['*', '/<', '/>', 'mod', '/', '%']]

    def expr(p, lv=0):
        if lv == len(p.LEVELS):
            return p.prim()
        l = p.expr(lv + 1)
        while p.pk() in p.LEVELS[lv]:
            op = p.nx()
            r = p.expr(lv + 1)
            l = (op, l, r)
        return l

    def prim(p):
        e = p.prim0()
        # range op term: the right operand is a whole term
        while isrange(e) and p.pk() in ('+', '-', '*', '/', '%'):
            op = p.nx()
            e = (op, e, p.expr(5))
        return e

    def prim0(p):
        t, k, line = p.t[p.i]
        if t == '~' or t == '-' or t == '!':
            p.nx()
            return ({'~': 'compl', '-': 'neg', '!': 'lnot'}[t], p.prim())
        if t == '(':
            p.nx()
            e = p.expr()
            p.nx(')')
            return e
        if t == '{':
            p.nx()
            l = [p.expr()]
            while p.pk() == ',':
                p.nx()
                l.append(p.expr())
            p.nx('}')
            return ('set',) + tuple(l)
        if k == 'num':
            p.nx()
            return ('num', int(t))
        if k == 'id':
            p.nx()
            if p.pk() == '(':
                p.nx()
                a = []
                if p.pk() != ')':
                    a.append(p.expr())
                    while p.pk() == ',':
                        p.nx()
                        a.append(p.expr())
                p.nx(')')
                if t in ('min', 'max', 'val', 'dom') and len(a) == 1 and a[0][0] == 'var':
                    return (t, a[0][1])
                return ('call', t) + tuple(a)
            if t == 'max_integer':
                return ('maxint',)
            return ('var', t)
        p.err('expected a term or a range')


def isrange(e):
    return e[0] in ('dom', 'set', 'compl', ':', '&', '++', '--', '**', '//', '%%', '..') or \
        e[0] in ('+', '-', '*', '/', '%') and isrange(e[1])


def read(path, rel):
    p = Parser(open(path, encoding='latin-1').read(), rel)
    return p.all(), p.cblocks


def show(e):
    if isinstance(e, tuple):
        if e[0] in ('num', 'var', 'v'):
            return str(e[1])
        if e[0] == 'maxint':
            return 'max_integer'
        if e[0] in ('min', 'max', 'val', 'dom'):
            return '%s(%s)' % e
        if e[0] == 'call':
            return '%s(%s)' % (e[1], ', '.join(map(show, e[2:])))
        if e[0] == 'set':
            return '{%s}' % ', '.join(map(show, e[1:]))
        if len(e) == 2:
            return '%s%s' % ({'compl': '~', 'neg': '-', 'lnot': '!'}[e[0]], show(e[1]))
        return '(%s %s %s)' % (show(e[1]), e[0], show(e[2]))
    return str(e)


def walk(e):
    if isinstance(e, tuple):
        yield e
        for x in e[1:]:
            yield from walk(x)

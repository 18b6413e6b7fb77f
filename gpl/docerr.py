"""Obligations from the manual: for every documented argument error of a built-in, which abstract
arguments must raise it.  An obligation is (predicate, condition, case) with abstract arguments."""
import re

from . import absint, manual, plint
from .absint import INTHI, INTLO

OTHER = '\x00none of the names used'

# ---------------------------------------------------------------- argument builders
# a builder is f(I, st, name) -> word


def K(*ks, **kw):
    def f(I, st, t):
        st.kinds[t] = frozenset(ks)
        if ks == ('ATM',) and kw.get('other'):
            st.atoms[t] = (frozenset([OTHER]), frozenset())
        if ks == ('ATM',) and kw.get('notnil'):
            st.atoms[t] = (None, frozenset(['[]']))
        if ks == ('ATM',) and kw.get('name'):
            st.atoms[t] = (frozenset([kw['name']]), frozenset())
        if 'rng' in kw and 'INT' in ks:
            st.rng[('int', t)] = kw['rng']
        if ks == ('STC',) and kw.get('not'):
            st.fnc[t] = (None, frozenset(kw['not']))
        return ('w', t, next(I.cnt))
    return f


def STC(name, *subs):
    def f(I, st, t):
        args = [b(I, st, next(I.cnt) if isinstance(t, int) else '%s.%d' % (t, i)) for i, b in enumerate(subs)]
        I.setstruct(st, t, name, args)
        return ('w', t, next(I.cnt))
    return f


def LST(car, cdr):
    return STC('.', car, cdr)


def CONST(w):
    return lambda I, st, t: w


NIL = CONST(('mk', 3, ('a', '[]')))
VAR = K('VAR')
ANY = K(*absint.KINDS)
INT = K('INT')
FLT = K('FLT')
ATM = K('ATM')
OATM = K('ATM', other=True)
STCX = K('STC', other=True)


def ONECHAR(I, st, t):
    st.kinds[t] = frozenset(['VAR', 'ATM'])
    st.atoms[t] = (frozenset(['a']), frozenset())
    return ('w', t, next(I.cnt))


def cstc(I, st, t):
    st.kinds[t] = frozenset(['STC'])
    st.fnc[t] = (frozenset([(OTHER, 1)]), frozenset())
    return ('w', t, next(I.cnt))


def clst(I, st, t):
    st.kinds[t] = frozenset(['LST'])
    return ('w', t, next(I.cnt))


def partial(I, st, t):
    return LST(K('ATM', 'INT'), VAR)(I, st, t)


KB = {'VAR': VAR, 'INT': INT, 'FLT': FLT, 'ATM': ATM, 'STC': cstc, 'LST': LST(INT, NIL)}

SA = '(?:SA)'
# class of acceptable things in "neither a variable nor ..." -> builders of everything that is not
NOT = [
    (r'an? integer', ['FLT', 'ATM', 'STC', 'LST']),
    (r'an? a?n? ?atom', ['INT', 'FLT', 'STC', 'LST']),
    (r'an? number', ['ATM', 'STC', 'LST']),
    (r'an? atomic term', ['STC', 'LST']),
    (r'a compound term', ['INT', 'FLT', 'ATM']),
    (r'a callable term', ['INT', 'FLT']),
    (r'a stream-term or alias', ['INT', 'FLT', 'STC', 'LST']),
    (r'a stream-term', ['INT', 'FLT', 'STC', 'LST', 'ATM']),
    (r'a stream', ['INT', 'FLT', 'STC', 'LST', 'ATM']),
    (r'an FD variable nor an integer', ['FLT', 'ATM', 'STC', 'LST']),
    (r'an integer nor an FD variable', ['FLT', 'ATM', 'STC', 'LST']),
    (r'a character', ['FLT', 'STC', 'LST', 'INT']),
    (r'a one-char atom', ['FLT', 'STC', 'LST', 'INT']),
    (r'an in-character', ['FLT', 'STC', 'LST', 'INT']),
    (r'an in-byte', ['FLT', 'STC', 'LST', 'ATM', 'BIG', 'NEG2']),
    (r'a byte', ['FLT', 'STC', 'LST', 'ATM', 'BIG', 'NEG']),
    (r'a boolean', ['INT', 'FLT', 'STC', 'LST', 'OATM']),
    (r'a predicate indicator', ['INT', 'FLT', 'STC', 'LST', 'ATM']),
    (r'predicate indicator or an atom', ['INT', 'FLT', 'STC', 'LST']),
    (r'a stream-position term', ['INT', 'FLT', 'STC', 'LST', 'ATM']),
    (r'a source/sink', ['INT', 'FLT', 'STC', 'LST']),
    (r'an? (?:evaluable property|predicate property) term', ['INT', 'FLT', 'STC', 'LST', 'OATM']),
    (r'a n? ?atom property term', ['INT', 'FLT', 'STC', 'LST', 'OATM']),
    (r'a file property term', ['INT', 'FLT', 'STC', 'LST', 'OATM']),
    (r'a stream property', ['INT', 'FLT', 'STC', 'LST', 'OATM']),
    (r'a valid (?:type|eof action|buffering mode|key|address)', ['INT', 'FLT', 'STC', 'LST', 'OATM']),
    (r'an operator priority', ['FLT', 'STC', 'LST', 'ATM', 'NEG', 'BIG']),
    (r'an operator specifier', ['INT', 'FLT', 'STC', 'LST', 'OATM']),
    (r'a list of two elements', ['INT', 'FLT', 'STC', 'ATM']),
    (r'a pair', ['INT', 'FLT', 'STC', 'LST', 'ATM']),
    (r'a valid (?:read option|write-option)|a (?:stream-option|close-option|labeling option|variable binding option)', ['INT', 'FLT', 'STC', 'LST', 'OATM']),
]
KB['OATM'] = OATM
KB['BIG'] = K('INT', rng=(5000, INTHI))
KB['NEG'] = K('INT', rng=(INTLO, -1))
KB['NEG2'] = K('INT', rng=(INTLO, -2))
KB['ILST'] = LST(INT, INT)      # not a list
KB['NNATM'] = K('ATM', notnil=True)
KB['PLST'] = partial


def clean(c):
    c = c.replace('\\geq', '>=')
    c = re.sub(r'\b(set-prolog-flag/2|close \S*)$', '', c)
    c = re.sub(r'[,.]\s*$', '', c.strip())
    return c


def clause_alts(c):
    """alternatives for one elementary condition: list of (param, builder, label) or None"""
    m = re.match(r'^(\w+) is a variable$', c)
    if m:
        return m.group(1), [('VAR', VAR)]
    m = re.match(r'^(\w+) is not a variable$', c)
    if m:
        return m.group(1), [(k, KB[k]) for k in ('INT', 'FLT', 'ATM', 'STC', 'LST')]
    m = re.match(r'^(\w+) is not a variable but is a partial list$', c)
    if m:
        return m.group(1), [('PLST', partial)]
    m = re.match(r'^(\w+) is neither a variable nor (.*)$', c) or re.match(r'^(\w+) is neither (an FD variable nor an integer)$', c)
    if m:
        for pat, ks in NOT:
            if re.fullmatch(pat, m.group(2)):
                return m.group(1), [(k, KB[k]) for k in ks]
        if m.group(2) == 'an FD variable nor an integer nor a list':
            return m.group(1), [(k, KB[k]) for k in ('FLT', 'NNATM', 'STC')]
        return None
    m = re.match(r'^(\w+) is neither (?:a partial list nor a list|a list nor a partial list)( nor an atom| or an atom)?$', c)
    if m:
        ks = ['INT', 'FLT', 'STC', 'ILST'] + ([] if m.group(2) else ['NNATM'])
        return m.group(1), [(k, KB[k]) for k in ks]
    m = re.match(r'^(\w+) is a partial list$', c)
    if m:
        return m.group(1), [('VAR', VAR), ('PLST', partial)]
    m = re.match(r'^(\w+) is a partial list or a list with an element(?: \w+)? which is a variable$', c)
    if m:
        return m.group(1), [('VAR', VAR), ('PLST', partial), ('LSTV', LST(VAR, NIL))]
    m = re.match(r'^(\w+) is an integer < 0$', c) or re.match(r'^(\w+) is a number < 0$', c)
    if m:
        return m.group(1), [('NEG', KB['NEG'])]
    m = re.match(r'^(\w+) is an integer > max_arity(?: flag)?$', c)
    if m:
        return m.group(1), [('BIG', KB['BIG'])]
    m = re.match(r'^(\w+) is an integer but not an? (?:in-)?character code$', c)
    if m:
        return m.group(1), [('NEG', KB['NEG2']), ('HUGE', K('INT', rng=(1 << 24, INTHI)))]
    m = re.match(r'^(\w+) is an integer not >= 0 and =< 1200$', c)
    if m:
        return m.group(1), [('NEG', KB['NEG']), ('BIG', KB['BIG'])]
    m = re.match(r'^(\w+) is not a valid operator specifier$', c)
    if m:
        return m.group(1), [('OATM', OATM)]
    m = re.match(r'^(\w+) is an atom but (?:not a valid (?:flag|stream seek method|socket domain)|not <, = or >|not an input/output mode|neither read nor write)$', c)
    if m:
        return m.group(1), [('OATM', OATM)]
    m = re.match(r'^(\w+) is a compound term but not a structure dt/6$', c)
    if m:
        return m.group(1), [('STC', cstc)]
    m = re.match(r'^(\w+) is the empty list$', c)
    if m:
        return m.group(1), [('NIL', NIL)]
    m = re.match(r'^(\w+) is a list whose head is a variable$', c)
    if m:
        return m.group(1), [('LSTV', LST(VAR, NIL))]
    m = re.match(r'^(\w+) is a list whose head (\w+) is neither an atom nor a variable and whose tail is not the empty list$', c)
    if m:
        return m.group(1), [('LST%s+' % k, LST(KB[k], LST(INT, NIL))) for k in ('INT', 'FLT', 'STC', 'LST')]
    m = re.match(r'^(\w+) is a list whose head (\w+) is a compound term and whose tail is the empty list$', c)
    if m:
        return m.group(1), [('LST%s' % k, LST(KB[k], NIL)) for k in ('STC', 'LST')]
    m = re.match(r'^(?:for keysort/2: )?(?:an|the) element (\w+) of (?:the )?(?:list )?(\w+)(?: list)? (is .*)$', c)
    if m:
        r = clause_alts('%s %s' % (m.group(1), m.group(3)))
        if r:
            return m.group(2), [('[%s]' % l, LST(b, NIL)) for l, b in r[1]]
    m = re.match(r'^for keysort/2: an element of (\w+) is a variable$', c)
    if m:
        return m.group(1), [('[VAR]', LST(VAR, NIL))]
    return None


def split_cond(c):
    """list of elementary conditions joined by `and`, or None"""
    c = clean(c)
    if 'and the value of' in c or 'and value of' in c:
        return None
    m = re.match(r'^(\w+) and (\w+) are(?: both)? variables$', c)
    if m:
        return ['%s is a variable' % m.group(1), '%s is a variable' % m.group(2)]
    m = re.match(r'^(\w+) is a term (\w+)/(\w+) and (.*)$', c)
    if m:
        return ('pi', m.group(1), m.group(2), m.group(3), m.group(4))
    if re.match(r'.* (?:\(or|or) .* is ', c) and not re.match(r'^\w+ is ', c):
        return None
    whole = clause_alts(c)
    if whole:
        return [c]
    parts = re.split(r'(?:,| and) (?=\w+ is )', c)
    return parts


def cases(cond):
    """[(label, {param: builder})] for a documented condition, or None when it is not expressible"""
    p = split_cond(cond)
    if p is None:
        return None
    if isinstance(p, tuple):
        _, x, n, a, rest = p
        m = re.match(r'either (\w+) or (\w+) is a variable$', rest)
        if m:
            return [('VAR/_', {x: STC('/', VAR, INT)}), ('_/VAR', {x: STC('/', ATM, VAR)})]
        r = clause_alts(rest)
        if r is None:
            return None
        out = []
        for l, b in r[1]:
            if r[0] == n:
                out.append(('%s/_' % l, {x: STC('/', b, K('INT', rng=(0, 3)))}))
            elif r[0] == a:
                out.append(('_/%s' % l, {x: STC('/', ATM, b)}))
            else:
                return None
        return out
    alts = [('', {})]
    for c in p:
        r = clause_alts(c)
        if r is None:
            return None
        nxt = []
        for l, d in alts:
            for l2, b in r[1]:
                if r[0] in d:
                    return None
                d2 = dict(d)
                d2[r[0]] = b
                nxt.append(((l + ' ' if l else '') + '%s=%s' % (r[0], l2), d2))
        alts = nxt
    return alts


# ---------------------------------------------------------------- parameters and templates
def params(sec, name, arity, deep=True):
    """parameter names of pred name/arity as written in the description"""
    body = sec.body
    t = manual.detex(body.replace('\\ErrCond', ' ').replace('\\Description', ' '))
    if arity == 0:
        return []
    cand = []
    for m in re.finditer(r'(?<![\w$])' + re.escape(name) + r'\(', t):
        a = split_args(t, m.end() - 1)
        if a and len(a) == arity and all(re.fullmatch(r'[A-Z]\w*', x) for x in a):
            cand.append(a)
    if cand:
        return cand[0]
    if arity == 2:
        for m in re.finditer(r'\b([A-Z]\w*) ' + re.escape(name) + r' ([A-Z]\w*)', t):
            return [m.group(1), m.group(2)]
    if deep:
        # same name with more arguments, aligned on the right; else a sibling with the same template
        for n2, a2 in sec.preds:
            if n2 == name and a2 > arity:
                p = params(sec, n2, a2, False)
                if p:
                    return p[-arity:]
        mine = templates(sec, name, arity)
        for n2, a2 in sec.preds:
            if a2 == arity and n2 != name:
                p = params(sec, n2, a2, False)
                if p and (not mine or len(mine[0]) == len(p)):
                    return p
        for n2, a2 in sec.preds:
            if a2 > arity:
                p = params(sec, n2, a2, False)
                if p:
                    return p[-arity:]
    return None


def split_args(t, i):
    d = 0
    cur = ''
    out = []
    while i < len(t):
        c = t[i]
        if c in '([{':
            d += 1
            if d > 1:
                cur += c
        elif c in ')]}':
            d -= 1
            if d == 0:
                out.append(cur.strip())
                return out
            cur += c
        elif c == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    return None


def templates(sec, name, arity):
    out = []
    for t in sec.templates:
        m = re.search(r'(?<![\w$])' + re.escape(name) + r'\(', t)
        if m:
            a = split_args(t, m.end() - 1)
            if a and len(a) == arity:
                out.append(a)
        elif arity == 2 and (' ' + name + ' ') in t:
            a = [x.strip() for x in t.split(' ' + name + ' ')]
            if len(a) == 2:
                out.append(a)
    return out


def benign(ty):
    """builder of an argument that satisfies the template type"""
    sign, ty = (ty[0], ty[1:]) if ty[:1] in '+-?:' else ('?', ty)
    if sign == '-':
        return VAR
    var = ('VAR',) if sign == '?' else ()
    if ty in ('integer', 'arity'):
        return K(*(var + ('INT',)))
    if ty in ('byte', 'character_code', 'in_byte', 'in_character_code'):
        return K(*(var + ('INT',)), rng=(1, 127))
    if ty in ('atom', 'io_mode', 'flag', 'stream_seek_method', 'operator_specifier', 'socket_domain',
              'boolean', 'source_sink', 'atom_or_atom_list', 'stream_or_alias'):
        return K(*(var + ('ATM',)))
    if ty in ('character', 'in_character'):
        return K(*(var + ('ATM',)), name='a') if not var else ONECHAR
    if ty in ('callable_term', 'head', 'clause', 'callable'):
        return K(*(var + ('ATM', 'STC')))
    if ty in ('number',):
        return K(*(var + ('INT', 'FLT')))
    if 'list' in ty:
        if var:
            return VAR
        return NIL
    if ty == 'predicate_indicator':
        return STC('/', ATM, K('INT', rng=(0, 3)))
    if ty == 'compound_term':
        return cstc
    if ty == 'fd_variable':
        return K('INT', 'FDV')
    if ty == 'fd_evaluable':
        return K('INT')
    if ty == 'stream':
        return VAR if var else STC('$stream', INT)
    return ANY


ELEM = {'fd_variable_list': ('INT', 'FDV'), 'fd_variable_list_or_fd_variable': ('INT', 'FDV'), 'integer_list': ('INT',),
        'atom_list': ('ATM',), 'atom_or_atom_list': ('ATM',), 'fd_bool_evaluable_list': ('INT',)}


def benign_elem(ty):
    """builder of a one-element list that satisfies the template type, or None"""
    if ty in ('+character_code_list', '+character_code_list_or_atom'):
        return LST(K('INT', rng=(1, 127)), NIL)
    if ty in ('+character_list', '+character_list_or_character_code_list_or_atom'):
        return LST(K('ATM', name='a'), NIL)
    if ty == '+integer_list_list':
        return LST(LST(K('INT'), NIL), NIL)
    ks = ELEM.get(ty[1:]) if ty[:1] == '+' else None
    return LST(K(*ks), NIL) if ks else None


class Ob:
    __slots__ = ('pred', 'cond', 'case', 'args', 'expect', 'sec', 'culprit')

    def key(self):
        return '%s/%d | %s | %s' % (self.pred[0], self.pred[1], self.cond, self.case)


def parse_err(e):
    """documented error term -> (functor, fixed args...) with None for culprits"""
    m = re.match(r'^(\w+)(?:\((.*)\))?$', e)
    if not m:
        return None
    f = m.group(1)
    if m.group(2) is None:
        return (f,)
    a = split_args('(' + m.group(2) + ')', 0)
    return (f,) + tuple(a)


def obligations():
    """(list of Ob, statistics)"""
    obs = []
    st = {'conditions': 0, 'expressible': 0, 'noparams': [], 'inexpressible': []}
    for sec in manual.sections():
        for cond, err in sec.errors:
            e = parse_err(err)
            for name, ar in sec.preds:
                st['conditions'] += 1
                ps = params(sec, name, ar)
                if ps is None:
                    st['noparams'].append((name, ar))
                    continue
                cs = cases(cond) if e is not None and (e[0].endswith('_error') or e[0] == 'instantiation_error') else None
                if cs is None:
                    st['inexpressible'].append((name, ar, cond))
                    continue
                if 'for keysort/2' in cond and name != 'keysort':
                    continue
                if 'in term_variables/2' in cond and (name, ar) != ('term_variables', 2):
                    continue
                st['expressible'] += 1
                tmpl = templates(sec, name, ar) or [['?term'] * ar]
                for label, d in cs:
                    if not all(p in ps for p in d):
                        continue
                    for ti, t in enumerate(tmpl):
                        o = Ob()
                        o.pred = (name, ar)
                        o.cond = cond
                        o.case = label + (' #%d' % ti if ti else '')
                        o.args = [d[p] if p in d else benign(ty) for p, ty in zip(ps, t)]
                        o.expect = e
                        o.sec = sec
                        o.culprit = ps
                        obs.append(o)
                        # the same with the valid list arguments not empty
                        el = [None if p in d else benign_elem(ty) for p, ty in zip(ps, t)]
                        if any(el):
                            o2 = Ob()
                            o2.pred, o2.cond, o2.case, o2.expect, o2.sec, o2.culprit = o.pred, o.cond, o.case + ' (e)', e, sec, ps
                            o2.args = [x or y for x, y in zip(el, o.args)]
                            obs.append(o2)
    return obs, st

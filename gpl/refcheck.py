"""Functions of the program against reference functions ref_<name> of spec/*.c, with gpl.equiv."""
import os
import re
import time

from . import equiv, ir, localdiff, prep, sem
from .prep import AnalysisBroken
from .sem import A, Facts, off, scale

NORETURN = {'Pl_Throw', 'Pl_Fatal_Error', 'Pl_Execute_A_Continuation', 'Pl_Exit_With_Value', 'Pl_Throw_2'}
START = time.time()
SPEC = os.path.join(prep.VERIF, 'spec')


class Spec:
    """units: [(dir, path)] compiled together; opaque: names not followed (unless compared themselves);
    stable: globals no call changes; keep: calls that change no memory; facts(f, args): more about the inputs"""

    def __init__(self, units, opaque=(), stable=(), keep=(), facts=None, limit=2000, arg=None, extra=(), over=None, own=()):
        self.units, self.opaque, self.stable, self.keep = units, opaque, set(stable), keep
        self.facts, self.limit, self.arg, self.extra, self.over = facts, limit, arg, extra, over
        self.own = own          # the functions of a unit given as a whole
        self.free, self.gone, self.odd = set(), set(), set()

    def load(self, form=None):
        ex = list(self.extra)
        if self.over:
            ex += overlay(self.over)
        p = ir.Program(self.units, passes=form or equiv.PASSES, extra=ex)
        self.noret(p)
        return p

    def noret(self, p):
        p.noreturn()
        p._noret |= {(None, n) for r, n in p._noret if r is not None}      # statics, as the references see them
        for u in p.units.values():
            for n in list(u.decls) + list(u.fns):
                if n.startswith('Pl_Err_') or n in NORETURN:
                    p._noret.add((None, n))


def among(n, names):
    if '!' + n in names:
        return False
    return n in names or any(k.endswith('*') and n.startswith(k[:-1]) for k in names)


def is_stable(names):
    def f(a):
        x = sem.single(a)
        return x is not None and x[0] == 'g' and x[1] in names
    return f


def names(prog, name):
    fn = prog.fn(name) if name in prog.ext else None
    if fn is None:
        for u in prog.units.values():
            if name in u.fns:
                return u.fns[name]
    return fn


def one(prog, spec, fn, rf, expand=()):
    args = [A(('v', 'a%d' % i)) for i in range(len(fn.args))]
    F = Facts()
    for a, ty in zip(args, rf.args):
        if ty == 'p':
            F.add_ge(a)
        elif ty in ('i32', 'i8', 'i16'):
            n = sem.BITS[ty]
            F.add_ge(off(a, 1 << n - 1))
            F.add_ge(off(scale(a, -1), (1 << n - 1) - 1))
    F.add_ge(off(A(('ld', A(('g', 'pl_reg_bank')))), -1))
    if spec.facts:
        spec.facts(F, args)

    def follow(g):
        return g.name in expand or g.name in spec.free or not among(g.name, spec.opaque)

    def mach():
        m = sem.Machine(prog, enter=follow, loop=equiv.hook, limit=spec.limit)
        m.versions = is_stable(spec.stable)
        m.rec = 2
        m.alias = {n: 'ref_' + n for n in expand}
        m.never = set(expand) | set(spec.free)
        m.keep = {n for n in list(prog.ext) if among(n, spec.keep)} | set(spec.keep)
        return m
    return equiv.compare(mach, fn, rf, args, F)


def plain(x, u):
    """an operand or instruction without line and with the names of the program"""
    if isinstance(x, list):
        if len(x) > 1 and x[0] == 'g' and isinstance(x[1], str):
            n = x[1]
            g = u.globals.get(n)
            if n.startswith('.str') and g and g.get('const'):
                return ('text', str(g.get('init')), g.get('size')) + tuple(x[2:])
            n = n[4:] if n.startswith('ref_') else n.replace('__const.ref_', '__const.', 1)
            return ('g', n) + tuple(plain(y, u) for y in x[2:])
        return tuple(plain(y, u) for y in x)
    if isinstance(x, str) and x.startswith('%struct.'):
        return x.rstrip('0123456789').rstrip('.')
    return x


def identical(fn, rf):
    """the same instructions"""
    if len(fn.blocks) != len(rf.blocks) or fn.args != rf.args:
        return False
    for a, b in zip(fn.blocks, rf.blocks):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x[:3] != y[:3] or plain(x[4:], fn.unit) != plain(y[4:], rf.unit):
                return False
    return True


def content(prog, u, g):
    r = []
    for x in g.get('init') or ():
        v = x[2]
        if isinstance(v, list) and v and v[0] == 'g':
            t = u.globals.get(v[1])
            if v[1].startswith('.str') and t and t.get('const'):
                v = ['text'] + [y[2] for y in t.get('init') or ()] + list(v[2:])
            else:
                v = ['g', v[1][4:] if v[1].startswith('ref_') else v[1]] + list(v[2:])
        if v not in (['c', 0], ['null']):
            r.append((x[0], x[1], v))
    return r


def tables(prog, prefix, only, but):
    """initial contents of variables and tables against those of the references: name, where, the difference ('' when none)"""
    for ru in prog.units.values():
        for n, g in ru.globals.items():
            name = n
            for p in (prefix, '__const.' + prefix):
                if n.startswith(p):
                    name = p[:-len(prefix)] + n[len(p):]
            if name == n or g.get('ext') or not content(prog, ru, g):
                continue
            own = g.get('fn') or name.split('.')[1] if name.startswith('__const.') else g.get('fn') or name
            own = own[len(prefix):] if own.startswith(prefix) else own
            if only and own not in only or own in but:
                continue
            u, h = next(((u, u.globals[name]) for u in prog.units.values() if name in u.globals and not u.globals[name].get('ext')), (None, None))
            if h is None or h['size'] != g['size']:
                yield name, None, None
                continue
            a, b = content(prog, u, h), content(prog, ru, g)
            d = ''
            if a != b:
                x = next(((x, y) for x, y in zip(a, b) if x != y), None) or ((a[len(b):] or [None])[0], (b[len(a):] or [None])[0])
                d = ' instead of '.join('nothing' if z is None else '%s at %d' % (z[2], z[0]) for z in x)
            yield name, u.rel, d


_job = None
BIG, HUGE = 60, 120


def local(prog, spec, fn, rf, expand=()):
    """the parts that differ of a large function; (reason, result or None)"""
    if expand:                          # functions that changed with this one are not compared by themselves
        return 'called functions changed', None
    v, text, r = localdiff.decide(fn, rf, plain, lambda a, b: one(prog, spec, a, b, expand))
    if v == 'different':
        r.bad = [('in this part of the function, ' + t, f, None) for t, f, _ in r.bad]
        r.unsure = []
        return text, r
    if v == 'equal':
        r = equiv.Result()
        r.paths = r.pairs = 1
        return text, r
    return text, None


def _run(i):
    prog, spec, todo = _job
    t = time.time()
    try:
        fn, rf = todo[i][1:3]
        r = near = None
        if len(fn.blocks) > BIG:
            why, near = local(prog, spec, *todo[i][1:])
            if near is not None and (not near.bad or len(fn.blocks) > HUGE):
                r = near
            elif len(fn.blocks) > HUGE:
                r = equiv.Result()
                r.unsure.append('too many blocks; locally: ' + why)
        if r is None:
            r = one(prog, spec, *todo[i][1:])
            if not r.bad and r.unsure and r.unsure[0].startswith('too many paths'):
                if len(fn.blocks) <= BIG:
                    why, near = local(prog, spec, *todo[i][1:])
                r.unsure[0] += '; locally: ' + why
                r = near or r
    except (LookupError, TypeError, ValueError, AttributeError, RecursionError) as x:      # a construct the analysis does not know
        r = equiv.Result()
        r.unsure.append('%s: %s' % (type(x).__name__, x))
    for k, (text, f, o) in enumerate(r.bad):
        r.bad[k] = (text, f, None)
    return r, time.time() - t


def pool(prog, spec, todo):
    global _job
    import multiprocessing as mp
    _job = prog, spec, todo
    for f in {x for t in todo for x in t[1:3]}:
        f.heads, f.defs
    res, end = [], START + 600
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        for h in [p.apply_async(_run, (i,)) for i in range(len(todo))]:
            try:
                res.append(h.get(max(1, end - time.time())))
            except mp.TimeoutError:
                r = equiv.Result()
                r.unsure.append('not finished in time')
                res.append((r, 0))
    return res


def respell(x, m):
    if isinstance(x, list):
        if len(x) > 1 and x[0] == 'g' and x[1] in m:
            return ['g', m[x[1]]] + [respell(y, m) for y in x[2:]]
        return [respell(y, m) for y in x]
    return x


def shape(x, u, free):
    """an instruction without line, the names in free left out"""
    if isinstance(x, tuple):
        if len(x) > 1 and x[0] == 'g' and x[1] in free:
            return ('g', '?') + tuple(shape(y, u, free) for y in x[2:])
        if len(x) > 1 and x[0] == 'g' and isinstance(x[1], str) and x[1].split('.')[0] in free:
            return ('g', '?.' + x[1].split('.', 1)[1]) + tuple(shape(y, u, free) for y in x[2:])
        return tuple(shape(y, u, free) for y in x)
    return x


def body(fn, free):
    return [[(x[:3], shape(plain(x[4:], fn.unit), fn.unit, free)) for x in b] for b in fn.blocks]


_words = None


def header_words():
    global _words
    if _words is None:
        import glob
        _words = set()
        for p in glob.glob(prep.SRC + '/*/*.h') + glob.glob(prep.WORK + '/cfg/*/EnginePl/*.h'):
            with open(p, errors='replace') as f:
                _words |= set(re.findall(r'\w+', f.read()))
    return _words


def align(prog, spec):
    """static functions and variables of the unit that have been renamed get the names of the references; what has no counterpart is noted"""
    ref = [u for u in prog.units.values() if any(n.startswith('ref_') for n in u.fns)]
    imp = [u for u in prog.units.values() if u not in ref]
    if len(ref) != 1 or len(imp) != 1:
        return
    R, U = ref[0], imp[0]
    with open(U.path, errors='replace') as f:
        text = f.read()
    for q in re.findall(r'#include\s+"([\w./]+\.c)"', text):
        q = os.path.join(os.path.dirname(U.path), q)
        if os.path.exists(q):
            with open(q, errors='replace') as f:
                text += f.read()
    src = set(re.findall(r'\w+', text))
    refs = {n[4:]: f for n, f in R.fns.items() if n.startswith('ref_')}
    gone = {n for n in refs if n not in U.fns and n not in U.decls}
    more = {n for n, f in U.fns.items() if n not in refs and f.internal and n not in R.fns and not n.endswith('_ctor')}
    own = {n[4:] if n.startswith('ref_') else n for n in R.globals}
    vgone = {n for n, g in R.globals.items() if (n[4:] if n.startswith('ref_') else n) not in U.globals and not n.startswith(('.str', '__const.')) and not g.get('fn')
             and (n[4:] if n.startswith('ref_') else n) not in src | header_words()}
    vmore = {n for n, g in U.globals.items() if n not in own and g['internal'] and not n.startswith(('.str', '__const.')) and not g.get('fn')}
    m = {}
    free = gone | more | {n[4:] if n.startswith('ref_') else n for n in vgone} | vmore
    for n in sorted(gone, key=lambda n: refs[n].line):
        f = refs[n]
        c = [k for k in more if k not in m and U.fns[k].args == f.args and U.fns[k].ret == f.ret and body(U.fns[k], free) == body(f, free)]
        if c:
            m[min(c, key=lambda k: U.fns[k].line)] = n
    for n in sorted(gone - set(m.values())):          # renamed and changed: the only one with these arguments
        f = refs[n]
        c = [k for k in more if k not in m and U.fns[k].args == f.args and U.fns[k].ret == f.ret]
        d = [k for k in gone - set(m.values()) if refs[k].args == f.args and refs[k].ret == f.ret]
        if len(c) == 1 and len(d) == 1 and abs(U.fns[c[0]].ninstr() - f.ninstr()) * 4 <= f.ninstr():
            m[c[0]] = n
    for n, g in U.globals.items():
        if g.get('fn') in m:
            m[n] = m[g['fn']] + n[len(g['fn']):]
    kind = lambda g: (g.get('size'), str(g.get('ty')))
    # variables and constants local to a function that are now local to another
    local = lambda n: n.replace('__const.', '__const').partition('.')[2].rstrip('0123456789').rstrip('.')
    vg = {n for n in R.globals if '.' in n and not n.startswith('.str') and not R.globals[n].get('fn', '').startswith('\0')
          and n.replace('ref_', '', 1) not in U.globals}
    vm = [n for n in U.globals if '.' in n and not n.startswith('.str') and n not in {x.replace('ref_', '', 1) for x in R.globals}]
    for n in sorted(vg):
        g = R.globals[n]
        name = n.replace('ref_', '', 1)
        c = [k for k in vm if k not in m and kind(U.globals[k]) == kind(g) and bool(g.get('const')) == bool(U.globals[k].get('const'))
             and (local(k) == local(name) or g.get('const') and U.globals[k].get('init') == g.get('init'))]
        d = [k for k in c if k.replace('__const.', '').partition('.')[0].startswith(name.replace('__const.', '').partition('.')[0])]
        c = d or c
        if len(c) == 1:
            m[c[0]] = name
    # variables of the same type, in the order of their definitions when all functions that use them agree
    for n in sorted(vgone):
        g = R.globals[n]
        name = n[4:] if n.startswith('ref_') else n
        c = [k for k in vmore if kind(U.globals[k])[1].split('x')[-1] == kind(g)[1].split('x')[-1] and k not in m]
        d = [k for k in vgone if kind(R.globals[k])[1].split('x')[-1] == kind(g)[1].split('x')[-1]]
        if len(c) == 1 and len(d) == 1:
            m[c[0]] = name
    if m:
        for n in list(U.fns):
            U.fns[n].d['blocks'] = U.fns[n].blocks = respell(U.fns[n].blocks, m)
            if n in m:
                f = U.fns.pop(n)
                f.name = m[n]
                U.fns[m[n]] = f
        for n in list(U.globals):
            g = U.globals[n]
            if g.get('init'):
                g['init'] = respell(g['init'], m)
            if n in m:
                U.globals[m[n]] = U.globals.pop(n)
        prog._noret = None
        if hasattr(prog, '_named'):
            del prog._named
        spec.noret(prog)
    spec.gone = gone - set(m.values())
    spec.free = {n for n in U.fns if n not in refs and n not in R.decls and spec.own}
    spec.odd = ({n[4:] if n.startswith('ref_') else n for n in vgone} | vmore) - set(m) - set(m.values())
    # functions whose arguments are not those of the reference
    spec.gone |= {n for n in refs if n in U.fns and U.fns[n].internal and U.fns[n].args != refs[n].args}


def mentions(fn, prog, spec, seen=None):
    """names used by fn and by the functions of its unit it may be followed into"""
    seen = set() if seen is None else seen
    todo = [fn]
    while todo:
        f = todo.pop()

        def walk(x):
            if isinstance(x, list):
                if len(x) > 1 and x[0] == 'g' and isinstance(x[1], str):
                    n = x[1]
                    if n not in seen:
                        seen.add(n)
                        g = f.unit.fns.get(n) or f.unit.fns.get('ref_' + n)
                        if g is not None and (g.internal or n in spec.gone):
                            todo.append(g)
                for y in x:
                    walk(y)
        for b in f.blocks:
            for ins in b:
                walk(ins[4:])
    return seen


def check(rep, spec, what, only=None, prefix='ref_', but=()):
    """-> number of functions proved equal to their reference"""
    try:
        prog = spec.load()
    except AnalysisBroken as x:
        if not any(s in str(x) for s in ('cannot parse',)):
            raise
        rep.undecided.append('%s: %s' % (what, str(x)[:300]))
        return 0
    if spec.own:
        align(prog, spec)
    proved, todo = 0, []
    refs = [f for u in prog.units.values() for f in u.fns.values() if f.name.startswith(prefix)]
    equal, local = set(), set()
    for rf in sorted(refs, key=lambda f: f.name):
        name = rf.name[len(prefix):]
        fn = names(prog, name)
        if fn is not None and fn.internal:
            local.add(name)
        if only and name not in only or name in but:
            continue
        rep.count(functions=1)
        if fn is None:
            rep.undecided.append('%s: %s is absent' % (what, name))
            continue
        if len(fn.args) != len(rf.args):
            rep.undecided.append('%s: %s takes %d arguments' % (what, name, len(fn.args)))
            continue
        if identical(fn, rf):
            proved += 1
            equal.add(name)
            rep.count(proved=1, same_instructions=1)
            continue
        todo.append((name, fn, rf, frozenset(spec.gone)))
    for name, where, d in tables(prog, prefix, only, but):
        rep.count(tables=1)
        if d is None:
            rep.undecided.append('%s: the table %s is absent' % (what, name))
        elif d:
            rep.violation('%s:%s' % (what, name), '%s: the table %s holds %s' % (where, name, d))
    res = {t[0]: (t, r, dt) for t, (r, dt) in zip(todo, pool(prog, spec, todo) if todo else ())}
    again, uses = {}, {}
    if spec.own:
        # functions that differ, by way of static functions that changed with them: these are followed as well
        changed = {n for n, (t, r, _) in res.items() if n in local and (r.bad or r.unsure)}
        todo = []
        for n, (t, r, _) in res.items():
            x = mentions(t[1], prog, spec) & changed | mentions(t[2], prog, spec) & changed
            x -= {n}
            if x and (r.bad or r.unsure or changed):
                todo.append((n, t[1], t[2], frozenset(spec.gone | x)))
        callers = [(n, f, g, x) for n, f, g, x in callers_of(prog, refs, prefix, changed, spec, only, but) if n not in {t[0] for t in todo}]
        todo += callers
        again = {t[0]: r for t, (r, _) in zip(todo, pool(prog, spec, todo) if todo else ())}
        uses = {t[0]: t[3] for t in todo}
    left = {n: uses.get(n, t[3]) for n, (t, r, _) in res.items() if (again.get(n, r) if r.bad else r).bad}
    for form in equiv.FORMS:
        if not left:
            break
        other(spec, form, left, res, again, prefix)
    for name, ((_, fn, rf, _), r, dt) in res.items():
        rep.count(paths=r.paths, pairs=r.pairs)
        if os.environ.get('REF_T'):
            print('%-34s paths %3d pairs %4d bad %d unsure %d %.1fs' % (name, r.paths, r.pairs, len(r.bad), len(r.unsure), dt), flush=True)
            for x in (r.unsure[:3] + r.bad[:3]):
                print('      ', x if isinstance(x, str) else '%s | %s' % (x[0][:400], equiv.facts_text(x[1],40)[200:1400]), flush=True)
        if r.bad and name in again:
            r = again[name]
        if r.bad and name in local:
            cs = [again[n] for n in again if name in uses[n]]
            if cs and all(not c.bad and not c.unsure for c in cs):
                rep.sample('%s: %s differs, the functions that call it do not' % (what, name))
                rep.count(proved=1)
                continue
            if cs and not any(c.bad for c in cs) and any(n in res and res[n][1].bad and name in uses[n] for n in again):
                rep.undecided.append('%s: %s and its callers changed together' % (what, name))
                continue
        if r.bad and spec.odd and (mentions(fn, prog, spec) | mentions(rf, prog, spec)) & spec.odd:
            rep.undecided.append('%s: %s: variables without counterpart' % (what, name))
        elif r.bad:
            text, f, o = r.bad[0]
            rep.violation('%s:%s' % (what, name), '%s: %s: %s when %s' % (fn.where, name, text[:300], equiv.facts_text(f)[:500]),
                          ['%s when %s' % (t, equiv.facts_text(f, 12)) for t, f, _ in r.bad[:6]])
        elif r.unsure:
            rep.undecided.append('%s: %s: %s' % (what, name, r.unsure[0][:200]))
        else:
            proved += 1
            rep.count(proved=1)
            rep.sample('%s: the %d paths of %s do what its reference does' % (what, r.paths, name))
    return proved


def other(spec, form, left, res, again, prefix):
    """functions found different, in another form"""
    try:
        prog = spec.load(form)
    except AnalysisBroken:
        return
    if spec.own:
        align(prog, spec)
    todo = []
    for n, x in left.items():
        fn, rf = names(prog, n), names(prog, prefix + n)
        if fn is not None and rf is not None and len(fn.args) == len(rf.args):
            if identical(fn, rf):
                todo.append((n, rf, rf, x))
            else:
                todo.append((n, fn, rf, x))
    for (n, *_), (r, _) in zip(todo, pool(prog, spec, todo) if todo else ()):
        if not r.bad and not r.unsure and r.paths:
            res[n] = (res[n][0], r, 0)
            again.pop(n, None)
            del left[n]


def callers_of(prog, refs, prefix, changed, spec, only, but):
    """the functions (equal to their reference by themselves) that call a changed static function"""
    if not changed:
        return
    for rf in refs:
        n = rf.name[len(prefix):]
        fn = names(prog, n)
        if fn is None or n in changed or len(fn.args) != len(rf.args):
            continue
        x = direct(fn) & changed
        if x:
            yield n, fn, rf, frozenset(spec.gone | x)


def direct(fn):
    r = set()
    for b in fn.blocks:
        for ins in b:
            if ins[0] == 'call' and ir.callee(ins):
                r.add(ir.callee(ins))
    return r


def overlay(changes):
    """compiler arguments with which the headers of the program are followed by more text: {path under src: text}"""
    import hashlib
    import json
    d = os.path.join(prep.WORK, 'overlay', hashlib.sha256(repr((prep.SRC, sorted(changes.items()))).encode()).hexdigest()[:16])
    os.makedirs(d, exist_ok=True)
    roots = []
    for rel, text in sorted(changes.items()):
        p = os.path.join(prep.SRC, rel)
        q = os.path.join(d, rel.replace('/', '_'))
        with open(p, errors='replace') as f:
            new = f.read() + '\n' + text
        tmp = q + '.%d' % os.getpid()
        with open(tmp, 'w') as f:
            f.write(new)
        os.rename(tmp, q)
        roots.append({'type': 'file', 'name': p, 'external-contents': q})
    y = os.path.join(d, 'vfs.yaml')
    tmp = y + '.%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump({'version': 0, 'use-external-names': False, 'roots': roots}, f)
    os.rename(tmp, y)
    return ['-ivfsoverlay', y]


NOLINE = {'EnginePl/misc.h': '#undef Malloc\n#undef Calloc\n#undef Realloc\n#undef Strdup\n#define Malloc(n) Pl_Malloc_Check(n, "", 0)\n'
                              '#define Calloc(n, s) Pl_Calloc_Check(n, s, "", 0)\n#define Realloc(p, n) Pl_Realloc_Check(p, n, "", 0)\n'
                              '#define Strdup(s) Pl_Strdup_Check(s, "", 0)\n'}
NOFILE = ('-I' + SPEC, '-Wno-builtin-macro-redefined', '-D__FILE__=""', '-D__LINE__=0')


def whole(path, **kw):
    """a unit of the program against spec/<name>_ref.c: each function by itself, the functions it calls by name and arguments"""
    d, base = os.path.split(path)
    ref = os.path.join(SPEC, 'unit', base[:-2] + '_ref.c')
    if not os.path.exists(ref):
        ref = os.path.join(SPEC, base[:-2] + '_ref.c')
    with open(ref) as f:
        text = f.read()
    own = tuple(sorted(set(re.findall(r'\bref_(\w+)\s*\(', text))))
    kw.setdefault('opaque', ('Pl_*', 'pl_*', 'map_*') + own)
    kw.setdefault('over', NOLINE)
    kw.setdefault('stable', {'pl_reg_bank'})
    kw.setdefault('limit', 6000)
    if kw.pop('regs', False):
        kw['extra'] = ('-fgnuc-version=7.0.0', '-iquote' + prep.configure(True) + '/EnginePl', '-I' + prep.SRC + '/' + d) + tuple(kw.get('extra', ()))
    kw.setdefault('own', own)
    return Spec([(d, os.path.join(prep.SRC, path)), (d, ref)], extra=NOFILE + ('-I%s/%s' % (prep.SRC, d), '-I' + prep.SRC + '/Tools') + tuple(kw.pop('extra', ())), **kw)


def units(rep, paths, only=None, but=(), **kw):
    for p in paths:
        check(rep, whole(p, **kw), os.path.basename(p)[:-2], only=only, but=but)


NOTRAIL = {'EnginePl/wam_inst.h': '#undef Trail_OV\n#undef Trail_MV\n#undef Trail_UV\n#define Trail_OV(adr) ((void) (adr))\n'
                                  '#define Trail_MV(adr, nb) ((void) (adr))\n#define Trail_UV(adr) ((void) (adr))\n'}

"""Decides the documented-error obligations (docerr) by abstract interpretation of the library (plint)."""
import json
import multiprocessing as mp
import os
import re
import sys
import time

from . import absint, docerr, ir, plint
from .prep import VERIF, AnalysisBroken

BASE = os.path.join(VERIF, 'data', 'obligations.json')
BUDGET = 60000
STEPS = 1500

_I = None
_O = None


def _init(obs, prog, mem):
    global _I, _O
    if mem:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
    sys.setrecursionlimit(20000)
    _O = obs
    _I = plint.Interp(prog, budget=BUDGET)
    _I.maxsteps = STEPS


def matches(t, exp):
    """thrown term (absint) against the documented one; capitalised words are culprits"""
    if t[0] != exp[0] or len(t) != len(exp):
        return False
    return all(not re.fullmatch('[a-z_0-9]+', e) or e == x for e, x in zip(exp[1:], t[1:]))


def culprit_ok(t, o):
    """does the culprit of the thrown term belong to the documented argument?"""
    for e, x in zip(o.expect[1:], t[1:]):
        if e in o.culprit:
            j = o.culprit.index(e)
            if x != ('arg', 'A%d' % j):
                return False
        elif re.fullmatch('[A-Z]', e):
            if not (isinstance(x, tuple) and x[0] == 'arg' and '.' in x[1]):
                return False
    return True


def ctx_name(st):
    """the built-in the error context will name in this state"""
    v = st.mem.get(plint.CBIP) or st.mem.get(plint.BIP)
    return (v[1], v[2]) if v else None


def why(st):
    v = st.mem.get(plint.IMP)
    return v[1] if v else None


def path(st, n=45):
    out = []
    for x in st.path(n):
        if isinstance(x, tuple) and len(x) == 3:
            out.append('%s:%s %s' % (x[1], x[0], {1: 'true', 0: 'false', True: 'true', False: 'false'}.get(x[2], x[2])))
        else:
            out.append(str(x))
    return ' > '.join(out)


def run_one(i):
    """-> dict describing how obligation i is (not) discharged"""
    o = _O[i]
    I = _I
    I.eng.blown = set()
    r = {'i': i}
    t0 = time.time()
    try:
        s = absint.State()
        args = [b(I, s, 'A%d' % j) for j, b in enumerate(o.args)]
        if getattr(o, 'prepare', None):
            o.prepare(I, s)
        q = I.query(o.pred[0], args, s)
    except MemoryError:
        r.update(cls='undecided', reason='memory')
        return r
    except AnalysisBroken as e:
        r.update(cls='undecided', reason='broken: %s' % e)
        return r
    except Exception as e:       # imprecision of the interpreter, never a verdict
        r.update(cls='undecided', reason='%s: %s' % (type(e).__name__, str(e)[:120]))
        return r
    r['t'] = time.time() - t0
    terms = sorted(q.terms(), key=str)
    r['terms'] = [str(t) for t in terms][:12]
    exp = [t for t in terms if matches(t, o.expect)]
    clean = [s for s in q.succ if why(s) is None]
    cleanf = [s for s in q.fails if why(s) is None]
    if q.budget:
        r.update(cls='undecided', reason='budget ' + q.budget)
        return r
    if not q.succ and not q.fails and exp:
        oth = [t for t in terms if t not in exp]
        r['cls'] = 'yes'
        r['exact'] = not oth
        r['culprit'] = all(culprit_ok(t, o) for t in exp)
        r['others'] = [str(t) for t in oth]
        r['ctx'] = sorted({ctx_name(s) for t, s, _ in q.throws if t in exp}, key=str)
        for t, s, where in q.throws:
            if t in exp and ctx_name(s) != o.pred:
                r['ctx_where'] = 'raised at %s after %s' % (where, path(s))
                break
        if oth:
            for t, s, where in q.throws:
                if t in oth:
                    r['oth_where'] = '%s raised at %s after %s' % (t, where, path(s))
                    r['oth_imp'] = why(s) is not None
                    break
        if not r['culprit']:
            for t, s, where in q.throws:
                if t in exp and not culprit_ok(t, o):
                    r['cul_where'] = '%s raised at %s after %s' % (t, where, path(s))
        return r
    if clean:
        r.update(cls='no', reason='succeeds', detail=path(clean[0]))
    elif cleanf:
        r.update(cls='no', reason='fails', detail=path(cleanf[0]))
    elif not q.succ and not q.fails:
        r.update(cls='no', reason='never raises it', detail='raised instead: %s' % r['terms'])
        if any(why(s) for _, s, _ in q.throws):
            r.update(cls='undecided', reason='imprecise')
    else:
        r.update(cls='undecided', reason='imprecise: %s' % sorted({str(why(s)) for s in q.succ + q.fails})[:2])
    return r


def run_all(obs, prog=None, procs=None, mem=4):
    prog = prog or ir.program()
    plint.library()
    procs = procs or min(8, os.cpu_count() or 4)
    # similar obligations cost the same: spread them
    order = sorted(range(len(obs)), key=lambda i: (i * 7919) % max(1, len(obs)))
    ctx = mp.get_context('fork')
    with ctx.Pool(procs, _init, (obs, prog, mem)) as p:
        res = p.map(run_one, order, chunksize=4)
    return sorted(res, key=lambda r: r['i'])


def kind(o):
    f = o.expect[0]
    if f in ('instantiation_error', 'uninstantiation_error', 'type_error'):
        return 'C01'
    return 'C02'


def baseline():
    return json.load(open(BASE))


def decide(rep, obs, group, least):
    """judge the committed obligations of one group"""
    base = baseline()[group]
    idx = {o.key(): o for o in obs}
    todo = []
    gone = 0
    for k in base:
        o = idx.get(k)
        if o is None:
            gone += 1
        else:
            todo.append(o)
    rep.need(len(todo), least, 'documented obligations')
    res = run_all(todo)
    ok = 0
    preds = set()
    for r in res:
        o = todo[r['i']]
        b = base[o.key()]
        preds.add(o.pred)
        name = '%s/%d: %s' % (o.pred[0], o.pred[1], o.cond)
        exp = o.expect[0] + ('(%s)' % ','.join(map(str, o.expect[1:])) if len(o.expect) > 1 else '')
        if r['cls'] == 'yes':
            if b.get('exact') and not r['exact'] and not r.get('oth_imp'):
                rep.violation(o.key(), '%s [%s] must raise %s but may raise %s' % (name, o.case, exp, r['others'][0]),
                              r.get('oth_where', ''))
                continue
            if b.get('culprit') and not r['culprit']:
                rep.violation(o.key(), '%s [%s] must raise %s about that argument' % (name, o.case, exp), r.get('cul_where', ''))
                continue
            ok += 1
            if ok % 150 == 1:
                rep.sample('%s [%s] -> %s' % (name, o.case, exp), 20)
        elif r['cls'] == 'no':
            rep.violation(o.key(), '%s [%s] must raise %s but %s' % (name, o.case, exp, r['reason']), r.get('detail', ''))
        else:
            rep.undecided.append('%s: %s' % (o.key(), r['reason']))
    rep.count(obligations=len(todo), discharged=ok, predicates=len(preds), vanished=gone)
    return rep


def decide_context(rep, obs, least):
    base = {}
    for g in baseline().values():
        base.update(g)
    todo = [o for o in obs if base.get(o.key(), {}).get('ctx')]
    rep.need(len(todo), least, 'documented obligations')
    ok = 0
    preds = set()
    for r in run_all(todo):
        o = todo[r['i']]
        preds.add(o.pred)
        name = '%s/%d: %s [%s]' % (o.pred[0], o.pred[1], o.cond, o.case)
        if r['cls'] == 'undecided' or r['cls'] == 'no':
            rep.undecided.append('%s: %s' % (o.key(), r['reason']))
        elif r['ctx'] == [o.pred]:
            ok += 1
            if ok % 200 == 1:
                rep.sample('%s -> context %s/%d' % ((name,) + o.pred), 20)
        else:
            bad = [c for c in r['ctx'] if c != o.pred][0]
            rep.violation(o.key(), '%s: the error names %s instead of %s/%d' % (
                (name, '%s/%s' % bad if bad else 'no predicate') + o.pred), r.get('ctx_where', ''))
    rep.count(error_paths=len(todo), named_right=ok, predicates=len(preds))
    return rep


def make_baseline(group, obs, path=BASE):
    """development aid: which obligations the current tree discharges"""
    res = run_all(obs)
    d = {}
    stat = {}
    for r in res:
        stat[r['cls']] = stat.get(r['cls'], 0) + 1
        if r['cls'] == 'yes':
            e = {}
            if r['exact']:
                e['exact'] = 1
            if r['culprit']:
                e['culprit'] = 1
            if r['ctx'] == [obs[r['i']].pred]:
                e['ctx'] = 1
            d[obs[r['i']].key()] = e
    allb = json.load(open(path)) if os.path.exists(path) else {}
    allb[group] = d
    with open(path, 'w') as f:
        json.dump(allb, f, indent=0, sort_keys=True)
    print(group, stat, 'exact', sum(1 for e in d.values() if e.get('exact')), 'culprit', sum(1 for e in d.values() if e.get('culprit')))
    return res


if __name__ == '__main__':
    obs, st = docerr.obligations()
    t0 = time.time()
    for g in ('C01', 'C02'):
        oo = [o for o in obs if kind(o) == g]
        res = make_baseline(g, oo)
        with open('/tmp/w/un-%s.txt' % g, 'w') as f:
            for r in res:
                if r['cls'] != 'yes':
                    f.write('%s\n    %s %s %s\n' % (oo[r['i']].key(), r['cls'], r.get('reason'), r.get('terms')))
        print(time.time() - t0)

"""A built-in fails when one of its results does not unify with the argument given for it."""
import json
import os
import re

from gpl import flow, ir, plint, plread, prep
from gpl.plread import A, C, V

RULE = ('(1) in every C function that answers success or failure, every path on which a unification (or a function that itself '
        'answers 0 exactly because a unification failed) has answered "failed" returns "failed", unless the same unification '
        'is tried again for another candidate; (2) no more unification results are discarded in a C unit than those '
        'recorded as harmless; (3) every clause that calls a C built-in that can fail tests its answer, passes as '
        'many arguments as the function takes, and the function uses each of them')

UNI = re.compile(r'^Pl_(Unify|Un_\w+|Get_(Integer|Atom|Float|Nil|List|Structure)(_Tagged)?|Unify_(?!Variable)\w+|Fd_Unify\w*)$')
# (caller, callee) whose negative answer is not a failed result: parsing a number failed -> the text is an atom
TEST = {('Pl_Name_2', 'String_To_Number')}
BASE = os.path.join(prep.VERIF, 'data', 'ignored-unify.json')


def const_returns(fn):
    out = set()
    D = {}
    for b in fn.blocks:
        for ins in b:
            if isinstance(ins[1], int) and ins[1] >= 0:
                D[ins[1]] = ins

    def val(o, seen):
        if isinstance(o, list) and o[0] == 'c':
            out.add(o[1])
        elif isinstance(o, int) and o in D and D[o][0] == 'phi':
            if o not in seen:
                seen.add(o)
                for _, x in D[o][4]:
                    val(x, seen)
        else:
            out.add('?')
    for b in fn.blocks:
        t = b[-1]
        if t[0] == 'ret':
            if t[4]:
                val(t[4][0], set())
            else:
                out.add('void')
    return out


def sites(prog):
    fds = {n for n, _ in plint.fd_signatures()}

    def base(n, unit):
        if n in fds:
            return prog.fn(n) is None
        f = prog.fn(n, unit)
        return bool(UNI.match(n)) and f is not None and f.ret == 'i32'

    fns = list(prog.allfns())
    # calls of each function that matter, found once
    calls = {}
    for f in fns:
        calls[f] = [(bi, ins, ir.callee(ins), prog.key(ir.callee(ins), f.unit)) for bi, ins in f.calls() if ir.callee(ins)]
    derived = set()
    memo = {}
    while True:
        new, ign, res = set(), [], []
        for f in fns:
            mine = [(bi, ins, n) for bi, ins, n, k in calls[f] if base(n, f.unit) or k in derived]
            if not mine:
                continue
            us = flow.uses(f)
            zero, other = 0, 0
            for bi, ins, n in mine:
                if ins[1] < 0 or ins[1] not in us:
                    ign.append((f, ins, n))
                    other += 1
                    continue
                if id(ins) not in memo:
                    memo[id(ins)] = flow.returns_after(prog, f, bi, ins, 0, retry=True)
                r = memo[id(ins)]
                res.append((f, ins, n, r))
                if r == {0}:
                    zero += 1
                elif r:
                    other += 1
            if zero and not other and f.ret == 'i32':
                new.add(prog.key(f.name, f.unit))
        if new <= derived:
            return res, ign, derived, base
        derived |= new


def run(rep):
    prog = ir.program()
    res, ign, derived, base = sites(prog)
    n = 0
    for f, ins, cal, r in res:
        if f.ret != 'i32' or (f.name, cal) in TEST:
            continue
        n += 1
        if not r <= {0}:
            rep.violation('%s goes on after %s failed' % (f.name, cal),
                          '%s: after %s has failed, %s can still answer %s' % (f.loc(ins), cal, f.name, '/'.join(str(x) for x in sorted(r, key=str) if x != 0)))
    rep.count(unifications=n, functions=len({f.name for f, _, _, _ in res}), derived=len(derived))
    rep.need(n, 500, 'unification sites')
    cnt = {}
    for f, ins, cal in ign:
        cnt.setdefault(f.unit.rel, []).append((f, ins, cal))
    allowed = json.load(open(BASE))
    for u, l in sorted(cnt.items()):
        rep.count(discarded_results=len(l))
        al = allowed.get(u, {})
        if len(l) > sum(al.values()):
            have = {}
            for f, ins, cal in l:
                have.setdefault('%s %s' % (f.name, cal), []).append((f, ins, cal))
            x = [v for k, v in sorted(have.items()) if len(v) > al.get(k, 0)]
            f, ins, cal = (x[0] if x else l)[-1]
            rep.violation('%s discards the answer of %s' % (f.name, cal),
                          '%s: the answer of %s is discarded; a result that does not unify is taken for a success' % (f.loc(ins), cal))
    # ---- clauses
    lib = plint.library()
    nc = 0
    used = set()
    for k, cls in sorted(lib.preds.items()):
        for cl in cls:
            before = []
            head = cl.head.args if isinstance(cl.head, C) else ()
            for g in plread.subgoals(cl.body):
                if isinstance(g, C) and g.name in ('$call_c', '$call_c_test', '$call_c_jump'):
                    sp = g.args[0]
                    args = sp.args if isinstance(sp, C) else ()
                    opts = [o.name for o in plread.ltoks(g.args[1])] if g.arity > 1 else []
                    fn = prog.fn(sp.name)
                    if fn is None:
                        continue
                    nc += 1
                    used.add(sp.name)
                    if len(fn.args) != len(args):
                        rep.violation('%s/%d calls %s with %d arguments' % (k + (sp.name, len(args))),
                                      '%s/%d passes %d arguments to %s which takes %d' % (k + (len(args), sp.name, len(fn.args))))
                    test = g.name == '$call_c_test' or 'boolean' in opts
                    if test and fn.ret == 'v':
                        rep.violation('%s/%d tests %s' % (k + (sp.name,)), '%s/%d tests the answer of %s which gives none' % (k + (sp.name,)))
                    if g.name == '$call_c' and not test and 'jump' not in opts and 'ret' not in opts and fn.ret == 'i32':
                        r = const_returns(fn)
                        if 0 not in r and '?' not in r:
                            continue
                        if prog.key(fn.name, fn.unit) not in derived and not any(f is fn for f, _, _, _ in res):
                            continue
                        outs = unified_params(prog, fn, derived, base)
                        fresh = [a for i, a in enumerate(args) if i in outs and not (isinstance(a, V) and a not in before and a not in vars_of(head))]
                        if fresh or not outs:
                            rep.violation('%s/%d ignores the answer of %s' % (k + (sp.name,)),
                                          '%s: %s/%d does not test the answer of %s: it succeeds when the result does not unify' % (lib.file.get(k), k[0], k[1], sp.name))
                before.extend(vars_of([g]))
    for key, (name, ret) in sorted(lib.inline.items(), key=str):
        fn = prog.fn(name)
        if fn is None:
            continue
        used.add(name)
        nc += 1
        if ret != 'bool' and fn.ret == 'i32' and const_returns(fn) & {0, '?'}:
            rep.violation('inline %s/%s ignores %s' % (key + (name,)), 'the compiler does not test the answer of %s for %s/%s' % (name, key[0], key[1]))
        if len(fn.args) != key[1]:
            rep.violation('inline %s/%s arity' % key, '%s takes %d arguments but %s/%d is compiled to a call of it' % (name, len(fn.args), key[0], key[1]))
    for nme in sorted(used):
        fn = prog.fn(nme)
        us = flow.uses(fn)
        rep.count(parameters=len(fn.args))
        for i in range(len(fn.args)):
            if i not in us:
                rep.violation('%s ignores its argument %d' % (nme, i + 1), '%s: %s never looks at its argument %d' % (fn.where, nme, i + 1))
    rep.count(foreign_calls=nc)
    rep.need(nc, 400, 'calls of C functions from clauses')
    return rep


def vars_of(ts):
    out = []
    st = list(ts)
    while st:
        t = st.pop()
        if isinstance(t, V):
            out.append(t)
        elif isinstance(t, C):
            st.extend(t.args)
    return out


def unified_params(prog, fn, derived, base):
    """indices of the parameters that reach the last argument of a unification in fn"""
    D = {}
    for b in fn.blocks:
        for ins in b:
            if isinstance(ins[1], int) and ins[1] >= 0:
                D[ins[1]] = ins
    out = set()
    for bi, ins in fn.calls():
        n = ir.callee(ins)
        if n and (base(n, fn.unit) or prog.key(n, fn.unit) in derived):
            for o in ins[5]:
                st, seen = [o], set()
                while st:
                    x = st.pop()
                    if not isinstance(x, int) or x in seen:
                        continue
                    seen.add(x)
                    if x < len(fn.args):
                        out.add(x)
                    elif x in D and D[x][0] == 'phi':
                        st.extend(y for _, y in D[x][4])
    return out


if __name__ == '__main__':
    # regenerate the table of discarded results
    p = ir.program()
    _, ign, _, _ = sites(p)
    t = {}
    for f, ins, cal in ign:
        d = t.setdefault(f.unit.rel, {})
        k = '%s %s' % (f.name, cal)
        d[k] = d.get(k, 0) + 1
    json.dump(t, open(BASE, 'w'), indent=1, sort_keys=True)
    print(sum(sum(d.values()) for d in t.values()))

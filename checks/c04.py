"""The context of an error names the built-in that was called."""
from gpl import docerr, ir, manual, obl, plint, plread
from gpl.plread import A, C

RULE = ('(1) abstract interpretation of the library from every documented error case: in every state in which the documented '
        'error is raised, the name recorded for the error context is the called predicate; (2) every clause that records a '
        'constant name records the name of the documented predicate it belongs to; (3) on every control-flow path of a C '
        'built-in that records its own name, the record is removed again before a normal return')

# auxiliary predicates that record the name of the built-in they implement are not documented themselves


def typestate(rep):
    """forward may-analysis with callee summaries: can a function called by compiled code (not by C) return with the name
    that it recorded itself still recorded?"""
    prog = ir.program()
    fns, callers = {}, {}
    for f in prog.allfns():
        fns[prog.key(f.name, f.unit)] = f
        for _, ins in f.calls():
            c = ir.callee(ins)
            if c is not None:
                callers.setdefault(prog.key(c, f.unit), set()).add(f.name)
    SET, UNSET = 'Pl_Set_C_Bip_Name', 'Pl_Unset_C_Bip_Name'
    # the functions from which one of the two recorders is reachable through direct calls
    rel = set()
    st = [k for k in callers if k in (prog.key(SET, None), prog.key(UNSET, None), SET, UNSET)]
    byname = {}
    for k, f in fns.items():
        byname.setdefault(f.name, []).append(k)
    while st:
        k = st.pop()
        for nm in callers.get(k, ()):
            for k2 in byname.get(nm, ()):
                if k2 not in rel and nm not in (SET, UNSET):
                    rel.add(k2)
                    st.append(k2)
    summ = {k: {0: frozenset([0]), 1: frozenset([1])} for k in rel}   # entry state -> exit states

    def const(o):
        return isinstance(o, list) and o[0] == 'g'

    def flow(f, entry, report=None):
        inb = {0: {entry}}
        work = [0]
        out = set()
        while work:
            b = work.pop()
            cur = set(inb[b])
            for ins in f.blocks[b]:
                if ins[0] == 'call':
                    c = ir.callee(ins)
                    if ins[6]:
                        cur = set()
                        break
                    if c is None:
                        continue
                    if c == SET:
                        if const(ins[5][0]):
                            cur = {1} if cur else cur
                    elif c == UNSET:
                        cur = {0} if cur else cur
                    elif prog.is_noreturn(c, f.unit):
                        cur = set()
                        break
                    else:
                        s = summ.get(prog.key(c, f.unit))
                        if s is not None:
                            cur = set().union(*[s[x] for x in cur]) if cur else cur
                elif ins[0] == 'ret':
                    out |= cur
                    if report is not None and 1 in cur:
                        report.append(ins)
            if not cur:
                continue
            for s in f.succ[b]:
                old = inb.get(s, set())
                if not cur <= old:
                    inb[s] = old | cur
                    work.append(s)
        return frozenset(out)

    changed = True
    while changed:
        changed = False
        for k in sorted(rel, key=str):
            for e in (0, 1):
                r = flow(fns[k], e)
                if r != summ[k][e]:
                    summ[k][e] = r
                    changed = True
    n = 0
    for k in sorted(rel, key=str):
        f = fns[k]
        if not any(ir.callee(ins) == SET and const(ins[5][0]) for g in [f] for _, ins in g.calls()) and not any(
                prog.key(ir.callee(ins), f.unit) in rel for _, ins in f.calls() if ir.callee(ins)):
            continue
        if callers.get(k):
            continue                      # judged in its callers
        n += 1
        bad = []
        flow(f, 0, bad)
        if bad:
            rep.violation('%s leaves its name recorded' % f.name,
                          '%s can return normally with its name still recorded (%s): later errors would name it' % (f.name, f.loc(bad[0])))
    rep.count(c_functions=n)
    rep.need(n, 10, 'C functions that record their name')


def clauses(rep):
    lib = plint.library()
    doc = {p for s in manual.sections() for p in s.preds}
    n = 0
    for k, cls in sorted(lib.preds.items()):
        if k not in doc or k == ('set_bip_name', 2):
            continue
        for c in cls:
            for g in plread.subgoals(c.body):
                if isinstance(g, C) and g.name == 'set_bip_name' and isinstance(g.args[0], A) and isinstance(g.args[1], int):
                    n += 1
                    nm = (g.args[0].name, g.args[1])
                    if nm != k:
                        rep.violation('%s/%d records %s/%d' % (k + nm), 'a clause of %s/%d records the name %s/%d for its errors' % (k + nm))
    rep.count(clauses_recording_a_name=n)
    rep.need(n, 250, 'clauses that record a name')


def run(rep):
    clauses(rep)
    typestate(rep)
    obs, st = docerr.obligations()
    return obl.decide_context(rep, obs, 2000)

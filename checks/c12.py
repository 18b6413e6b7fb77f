"""C12: words stored in terms never refer to the local stack and are never FD cells separated from their address."""
import os
import re
from gpl import ir, localref, plint, plread, prep
from checks import c05
from checks.c06 import SCRATCH

RULE = ('every word stored in a term (or handed to a function that stores it) is globalised if it may be a reference to the local stack, and is '
        'made a reference if it may be an FD cell')
DECIDED = ('wam_inst.c', 'unify.c')         # compared with reference functions by C11
KEEPERS = ('g_var_inl_c.c',)              # the values of the global variables
EXEMPT = {
    'Pl_Add_Dynamic_Clause': 'writes the clause to be asserted at the top of the heap without reserving it, and copies it from there',
    'BC_Emulate_Byte_Code': 'executes the instructions of the byte-code compiler, which emits unify_local_value where it is needed',
    'Prep_Debug_Call': 'the goal built is reached only while the call it stands for runs, and the environments its arguments refer to are still there',
    'Pl_Call_Closure': 'as Prep_Debug_Call: the goal is called at once and not returned',
    'G_Assign_Arg': 'the word is written in the value of the global variable only to be copied with it',
    'Select_Init_Ready_List': 'the word is a stream or an integer (checked before)',
    'Pl_Term_Ref_2': 'the word is pushed only when its address is not in the heap, where all the FD cells are',
}


def entries(prog):
    """functions called with words the analysis knows nothing about: position of these"""
    lib = plint.library()
    ent = {}

    def walk(t):
        if isinstance(t, plread.C):
            if t.name in ('$call_c', '$call_c_test', '$call_c_jump'):
                c = t.args[0]
                f = prog.fn(getattr(c, 'name', '') or '')
                if f is not None:
                    ent.setdefault(f, set()).update(range(len(getattr(c, 'args', ()))))
            for a in t.args:
                walk(a)
    for cls in lib.preds.values():
        for cl in cls:
            if hasattr(cl, 'body'):
                walk(cl.body)
    for v in lib.inline.values():
        f = prog.fn(v[0])
        if f is not None:
            ent.setdefault(f, set()).update(range(len(f.args)))
    n = len(ent)
    # the C interface: words given by foreign functions
    t = open(os.path.join(prep.SRC, 'EnginePl', 'gprolog.h'), errors='replace').read()
    api = 0
    for m in re.finditer(r'^[A-Za-z_][\w \*]*?\b(Pl_\w+)\s*\(([^)]*)\)\s*;', t, re.M):
        f = prog.fn(m.group(1))
        if f is None:
            continue
        for i, a in enumerate(m.group(2).split(',')):
            if 'PlTerm' in a and i < len(f.args):
                ent.setdefault(f, set()).add(i)
                api += 1
    return ent, n, api


def analysis():
    prog = ir.Program(passes='split')        # locals whose address is handed to a call are still followed
    ent, n, api = entries(prog)
    skip = {}
    for f in prog.allfns():
        if f.unit.name in DECIDED or f.name in SCRATCH or f.name in EXEMPT:
            skip[f] = set()
    uv = prog.fn('Pl_Unify_Value')
    if uv is not None:
        skip[uv] = {('p', 0, 'L'), ('p', 0, 'F')}
    an = localref.Analysis(prog, c05.Bank(), ent, skip, KEEPERS)
    an.run()
    return an, n, api


def run(rep):
    an, n, api = analysis()
    rep.need(n, 300, 'C functions called by the library')
    rep.need(api, 50, 'words given to the C interface')
    what = {'L': 'may refer to a variable of the local stack', 'F': 'may be the cell of an FD variable'}
    for f in an.prog.allfns():
        fl = an.flows[f]
        rep.count(functions=1)
        if f in an.skip:
            rep.count(not_analysed=1)
            continue
        for b in f.rpo:
            for x in f.blocks[b]:
                if x[0] == 'store' and x[7] == 'i64':
                    p = fl.place(x[5])
                    if p and p[0] in ('word', 'H', 'S'):
                        rep.count(stores_in_terms=1)
                        rep.sample('store in a term: ' + f.loc(x))
                elif x[0] == 'call' and an.sink.get(an.prog.fn(ir.callee(x) or '', f.unit)):
                    rep.count(words_passed_to_be_stored=1)
                    rep.sample('%s: word handed to %s' % (f.loc(x), ir.callee(x)))
        seen = set()
        for x, b, c, text in fl.sinks():
            bad = {a for a in c if isinstance(a, str)} | {'L' for a in c if isinstance(a, tuple) and a[1] in an.entries.get(f, ())}
            if x[0] == 'call':
                g = an.prog.fn(ir.callee(x), f.unit)
                kinds = {s[2] for s in an.sink.get(g, ())}
                bad &= kinds
                sink = ir.callee(x)
            else:
                sink = 'store'
            for k in sorted(bad):
                key = '%s:%s:%s' % (f.name, sink, k)
                if key in seen:
                    continue
                seen.add(key)
                rep.violation(key, '%s: a word that %s %s' % (f.loc(x), what[k], text), [])
    rep.count(entry_points=n, interface_words=api)
    return rep

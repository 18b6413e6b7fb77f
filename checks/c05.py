"""Backtracking restores the machine state saved by the choice point, and nondeterministic C built-ins resume from their own state."""
import glob
import os
import re

from gpl import ir, plint, plread, prep, vn
from gpl.plread import C

RULE = ('(1) every function that pushes a choice point saves each machine register in a slot of its own, every function that '
        'resumes or removes one restores each register from the slot it was saved in, argument registers included, and untrails; '
        '(2) every other change of the last choice point also resets the heap limit of trailing from the new one; environments '
        'are restored from where they are saved; (3) every nondeterministic C built-in saves exactly the slots its retry '
        'function reads, the retry function advances the saved state or removes its choice point on each path, never both, '
        'and is called by the clause of its retry predicate')

SAVED = ('CP', 'E', 'B', 'H', 'TR', 'CS')
BANK = ('g', 'pl_reg_bank')


def registers():
    """name -> offset in the register bank, and the number of argument registers"""
    cfg = prep.configure()
    t = open(os.path.join(cfg, 'EnginePl', 'wam_archi.h')).read() + open(os.path.join(cfg, 'EnginePl', 'gp_config.h')).read() \
        + open(os.path.join(prep.SRC, 'EnginePl', 'pl_params.h')).read()
    nb = None
    for f in glob.glob(prep.SRC + '/EnginePl/*.h') + glob.glob(cfg + '/EnginePl/*.h'):
        m = re.search(r'#define\s+NB_OF_X_REGS\s+(\d+)', open(f, errors='replace').read())
        if m:
            nb = int(m.group(1))
    if nb is None:
        raise prep.AnalysisBroken('NB_OF_X_REGS not found')
    regs = {m.group(1): 8 * (nb + int(m.group(2))) for m in re.finditer(r'#define\s+(\w+)\s+\(\(\(\w+\s*\*\)\s*pl_reg_bank\)\[NB_OF_X_REGS\+(\d+)\]\)', t)}
    for r in SAVED + ('HB1', 'STAMP'):
        if r not in regs:
            raise prep.AnalysisBroken('register %s not found' % r)
    return regs, nb


class Bank:
    def __init__(self):
        self.regs, self.nb = registers()
        self.base = vn.atom(('ld', vn.atom(BANK), 0))
        self.off = {v: k for k, v in self.regs.items()}

    def addr(self, r):
        return vn.off(self.base, self.regs[r])

    def init(self, r):
        return vn.atom(('ld', self.addr(r), 0))

    def reg_of(self, a):
        """register name of an address in the bank: 'CP', ('A', offset linear expr) or None"""
        d = vn.add(a, self.base, -1)
        if any(x == self.base[1][0][0] for x, _ in d[1]):
            return None
        if dict(a[1]).get(self.base[1][0][0]) != 1:
            return None
        if not d[1] and d[0] in self.off:
            return self.off[d[0]]
        return ('A', d)


def slot(a, b):
    """offset (linear) of address a from b when a is based on b"""
    d = vn.add(a, b, -1)
    for x, c in b[1]:
        if dict(a[1]).get(x) != c:
            return None
    return d


def frames(rep, prog, K):
    fams = {'create': {}, 'update': {}, 'delete': {}}
    for f in prog.ext.values():
        m = re.match(r'^Pl_(Create|Update|Delete)_Choice_Point(\d?)$', f.name)
        if m:
            fams[m.group(1).lower()][f.name] = (f, int(m.group(2)) if m.group(2) else None)
    rep.need(len(fams['create']), 2, 'functions that push a choice point')
    rep.need(len(fams['update']), 2, 'functions that resume a choice point')
    rep.need(len(fams['delete']), 2, 'functions that remove a choice point')
    SLOT, ARGS, STATIC, STAMP = {}, None, None, None
    ref = sorted(fams['create'])[0]

    def argslots(s, newb, writes, k, f, what):
        pass

    # ---- creation: what is saved where
    for n, (f, k) in sorted(fams['create'].items()):
        for s in vn.Eval(prog, f).paths():
            if s.end not in ('ret', 'loop'):
                continue
            newb = s.mem.get(K.addr('B'))
            if newb is None:
                rep.violation('%s pushes nothing' % n, '%s: %s does not change the last choice point on a path' % (f.where, n))
                continue
            top = [x for x, c in newb[1] if x in (K.init('B')[1][0][0], K.init('E')[1][0][0]) and c == 1]
            if len(top) != 1:
                rep.violation('%s frame' % n, '%s: the choice point of %s is not on top of the local stack' % (f.where, n))
                continue
            got, args = {}, []
            for a, v, ins in s.stores:
                d = slot(a, newb) if newb[1] else None
                if d is None or K.reg_of(a) is not None:
                    continue
                if not d[1]:
                    for r in SAVED:
                        if v == K.init(r):
                            got.setdefault(r, d[0])
                    if v == vn.atom(('arg', 0)):
                        got.setdefault('ALT', d[0])
                if len(v[1]) == 1 and v[1][0][0][0] == 'ld' and v[0] == 0:
                    ra = K.reg_of(v[1][0][0][1])
                    if isinstance(ra, tuple):
                        args.append((ra[1], d))
                    elif ra is not None and ra not in SAVED:
                        pass
            for r in SAVED + ('ALT',):
                if r not in got:
                    rep.violation('%s does not save %s' % (n, r), '%s: %s does not save %s in the choice point it creates' % (f.where, n, r))
                elif r in SLOT and SLOT[r] != got[r]:
                    rep.violation('%s saves %s elsewhere' % (n, r), '%s: %s saves %s at offset %d, other functions at %d' % (f.where, n, r, got[r], SLOT[r]))
                else:
                    SLOT[r] = got[r]
            if len(set(got.values())) != len(got):
                rep.violation('%s overlaps' % n, '%s: two registers share a slot in the choice point of %s' % (f.where, n))
            if s.mem.get(K.addr('HB1')) != K.init('H'):
                rep.violation('%s HB1' % n, '%s: %s does not set HB1 to the top of the heap' % (f.where, n))
            st = s.mem.get(K.addr('STAMP'))
            st = vn.add(st, K.init('STAMP'), -1) if st else vn.const(0)
            if STAMP is not None and st != STAMP:
                rep.violation('%s stamp' % n, '%s: %s counts choice points differently from its siblings' % (f.where, n))
            STAMP = st
            # argument registers
            size = vn.add(newb, vn.atom(top[0]), -1)
            lo = -min(got.values()) if got else 0
            if k is not None:
                if size != vn.const(lo + 8 * k):
                    rep.violation('%s frame size' % n, '%s: the frame of %s has %s bytes for %d arguments above %d bytes of registers' % (f.where, n, size[0], k, lo))
                want = {(8 * i, -lo - 8 - 8 * i) for i in range(k)}
                have = {(x[0], y[0]) for x, y in args if not x[1] and not y[1]}
                if want != have:
                    rep.violation('%s arguments' % n, '%s: %s saves the argument registers %s' % (f.where, n, sorted(have)))
            else:
                ar = vn.atom(('arg', 1))
                if size != vn.add(vn.const(lo), vn.scale(ar, 8)):
                    rep.violation('%s frame size' % n, '%s: the frame of %s does not have room for its arguments' % (f.where, n))
                if s.end == 'loop':
                    ok = [1 for x, y in args if x[1] and vn.add(x, y) == vn.const(-lo - 8) and x[1][0][1] == 8]
                    if not ok:
                        rep.violation('%s arguments' % n, '%s: the loop of %s does not save argument i in slot i' % (f.where, n))
    for fs, ai in (('create', 1), ('update', 1), ('delete', 0)):
        for n, (f, k) in sorted(fams[fs].items()):
            if k is None:
                counter(rep, prog, f, n, ai)
    # ---- resumption and removal
    for kind in ('update', 'delete'):
        for n, (f, k) in sorted(fams[kind].items()):
            for s in vn.Eval(prog, f).paths():
                if s.end not in ('ret', 'loop'):
                    continue
                b = K.init('B')
                ld = lambda r, bb=b: vn.atom(('ld', vn.off(bb, SLOT[r]), 0))
                for r in ('CP', 'E', 'H', 'CS'):
                    if r in SLOT and s.mem.get(K.addr(r)) != ld(r):
                        rep.violation('%s does not restore %s' % (n, r), '%s: %s does not restore %s from the slot where it was saved' % (f.where, n, r))
                if not any(c == 'Pl_Untrail' and a == (ld('TR'),) for c, a, _ in s.calls):
                    rep.violation('%s does not untrail' % n, '%s: %s does not undo the bindings made since the choice point' % (f.where, n))
                if kind == 'update':
                    if s.mem.get(K.addr('B'), b) != b:
                        rep.violation('%s changes B' % n, '%s: %s changes the last choice point' % (f.where, n))
                    if s.mem.get(K.addr('HB1')) != ld('H'):
                        rep.violation('%s HB1' % n, '%s: %s does not reset HB1 to the saved top of the heap' % (f.where, n))
                    if s.mem.get(vn.off(b, SLOT['ALT'])) != vn.atom(('arg', 0)):
                        rep.violation('%s alternative' % n, '%s: %s does not record the next alternative' % (f.where, n))
                    ai = 1
                else:
                    if s.mem.get(K.addr('B')) != ld('B'):
                        rep.violation('%s B' % n, '%s: %s does not go back to the previous choice point' % (f.where, n))
                    if s.mem.get(K.addr('HB1')) != ld('H', ld('B')):
                        rep.violation('%s HB1' % n, '%s: %s does not set HB1 from the previous choice point' % (f.where, n))
                    st = s.mem.get(K.addr('STAMP'))
                    st = vn.add(st, K.init('STAMP'), -1) if st else vn.const(0)
                    if STAMP is not None and vn.add(st, STAMP) != vn.const(0):
                        rep.violation('%s stamp' % n, '%s: %s does not undo the change of STAMP made at creation' % (f.where, n))
                    ai = 0
                lo = -min(SLOT.values())
                args = []
                for a, v, ins in s.stores:
                    ra = K.reg_of(a)
                    if isinstance(ra, tuple) and len(v[1]) == 1 and v[1][0][0][0] == 'ld':
                        d = slot(v[1][0][0][1], b)
                        if d is not None:
                            args.append((ra[1], d))
                if k is not None:
                    want = {(8 * i, -lo - 8 - 8 * i) for i in range(k)}
                    have = {(x[0], y[0]) for x, y in args if not x[1] and not y[1]}
                    if want != have:
                        rep.violation('%s arguments' % n, '%s: %s restores the argument registers %s, not those of its %d arguments' % (f.where, n, sorted(have), k))
                elif s.end == 'loop' and not [1 for x, y in args if x[1] and vn.add(x, y) == vn.const(-lo - 8) and x[1][0][1] == 8]:
                    rep.violation('%s arguments' % n, '%s: the loop of %s does not restore argument i from slot i' % (f.where, n))
    rep.count(frame_functions=sum(len(x) for x in fams.values()))
    # ---- environments
    al, de = prog.need('Pl_Allocate'), prog.need('Pl_Deallocate')
    es = {}
    for s in vn.Eval(prog, al).paths():
        if s.end != 'ret':
            continue
        ne = s.mem.get(K.addr('E'))
        for r in ('CP', 'E'):
            x = [d[0] for a, v, _ in s.stores for d in [slot(a, ne) if ne else None] if d is not None and not d[1] and v == K.init(r)]
            if not x:
                rep.violation('Pl_Allocate %s' % r, '%s: Pl_Allocate does not save %s in the environment' % (al.where, r))
            else:
                es[r] = x[0]
    for s in vn.Eval(prog, de).paths():
        for r in ('CP', 'E'):
            if r in es and s.mem.get(K.addr(r)) != vn.atom(('ld', vn.off(K.init('E'), es[r]), 0)):
                rep.violation('Pl_Deallocate %s' % r, '%s: Pl_Deallocate does not restore %s from where Pl_Allocate saved it' % (de.where, r))
    return SLOT


def assigns(rep, prog, K, SLOT, own):
    """every other store of B is accompanied by HB1 = HB(new B)"""
    n = 0
    for f in prog.allfns():
        if f.name in own:
            continue
        hit = False
        # quick filter: a store to the bank at the offset of B
        D = f.defs
        for b in f.blocks:
            for ins in b:
                if ins[0] == 'store' and isinstance(ins[5], int) and ins[5] in D:
                    g = D[ins[5]][1]
                    if g[0] == 'getelementptr' and g[5] == K.regs['B'] and not g[6] and isinstance(g[4], int) and g[4] in D:
                        l = D[g[4]][1]
                        if l[0] == 'load' and l[4] == ['g', 'pl_reg_bank', 0]:
                            hit = True
                            n += 1
                            bi = D[ins[5]][0]
                            if not follows(prog, f, ins, K, SLOT):
                                rep.violation('%s changes B without HB1' % f.name, '%s: the last choice point is changed and HB1 is not set from it' % f.loc(ins))
        if f.name == 'Pl_Reset_Prolog':
            continue
    rep.count(choice_point_assignments=n)
    rep.need(n, 5, 'assignments of B')


def follows(prog, f, st, K, SLOT):
    """does a store of HB1 = ld(B' + slot H), B' the stored value, follow in the block of st (or in blocks it dominates before any exit)?"""
    for bi, b in enumerate(f.blocks):
        if any(x is st for x in b):
            break
    ev = vn.Eval(prog, f)
    init = vn.State()
    try:
        ps = ev.paths(limit=64, start=bi, init=init)
    except vn.Limit:
        ps = []
    if not ps:
        return True
    for s in ps:
        val = None
        ok = False
        for a, v, ins in s.stores:
            if ins is st:
                val = v
            elif K.reg_of(a) == 'HB1' and val is not None and copied(v, val, K):
                ok = True                   # a whole copy of the registers is put back
            elif val is not None and K.reg_of(a) == 'HB1' and (v == vn.atom(('ld', vn.off(val, SLOT['H']), 0)) or v == s.mem.get(vn.off(val, SLOT['H']))):
                ok = True
        if val is None:
            continue
        if not ok and any(c == 'Pl_Create_Choice_Point' or (c or '').startswith('Pl_Create_Choice') for c, _, i in s.calls):
            ok = True                       # initialisation of the stacks: a first choice point is pushed at once
        if not ok and s.end in ('ret', 'loop', 'noreturn', 'stop'):
            return False
    return True


def copied(v, val, K):
    x, y = v[1], val[1]
    if len(x) != 1 or len(y) != 1 or x[0][0][0] != 'ld' or y[0][0][0] != 'ld':
        return False
    a, b = x[0][0][1], y[0][0][1]
    return K.reg_of(a) is None and vn.add(a, b, -1) == vn.const(K.regs['HB1'] - K.regs['B'])


HEX = re.compile(r'^X1_([0-9A-F]+?)(?:__a(\d+))?$')


def demangle(sym):
    m = re.match(r'^X(\d+)_(.*?)__a(\d+)$', sym)
    if not m:
        return None
    k, body, ar = int(m.group(1)), m.group(2), int(m.group(3))
    if k == 0:
        return (body, ar)
    if k == 1:
        try:
            return (bytes.fromhex(body).decode('latin-1'), ar)
        except ValueError:
            return None
    return None


def nondet(rep, prog, K, SLOT):
    lo = -min(SLOT.values())
    create, update, size = [], {}, {}
    for f in prog.allfns():
        for bi, ins in f.calls():
            c = ir.callee(ins)
            if c == 'Pl_Create_Choice_Point' and isinstance(ins[5][0], list) and ins[5][0][0] == 'g':
                create.append((f, ins))
                x = ins[5][1]
                size[ins[5][0][1]] = max(size.get(ins[5][0][1], 0), x[1] if isinstance(x, list) and x[0] == 'c' else 10 ** 6)
            elif c == 'Pl_Update_Choice_Point' and isinstance(ins[5][0], list) and ins[5][0][0] == 'g':
                update.setdefault(ins[5][0][1], []).append((f, ins))
    lib = plint.library()
    caller = {}
    for k, cls in lib.preds.items():
        for cl in cls:
            for g in plread.subgoals(cl.body):
                if isinstance(g, C) and g.name in ('$call_c', '$call_c_test', '$call_c_jump') and hasattr(g.args[0], 'name'):
                    caller.setdefault(g.args[0].name, set()).add(k)
    nb = 0
    for F, ci in create:
        code = ci[5][0][1]
        pred = demangle(code)
        n = ci[5][1]
        n = n[1] if isinstance(n, list) and n[0] == 'c' else None
        nb += 1
        # the saved argument registers are set on every path (a function without parameters finds them in place)
        if n is not None and F.args:
            w = must_write(F, ci, K)
            miss = [i for i in range(n) if 8 * i not in w]
            if w is not None and miss and not dynamic_writes(F, K):
                rep.violation('%s saves too little' % F.name, '%s: the choice point of %s has %d slots but argument register %d is not set on some path' % (F.loc(ci), F.name, n, miss[0]))
        if pred is not None and (pred[0], pred[1]) in lib.preds:
            called = set()
            for cl in lib.preds[pred]:
                for g in plread.subgoals(cl.body):
                    if isinstance(g, C) and g.name in ('$call_c', '$call_c_test', '$call_c_jump'):
                        called.add(g.args[0].name)
        elif code in {u for u in prog.ext}:
            called = set()
        else:
            if pred is not None and pred[0].startswith('$') and pred not in lib.preds and code not in prog.ext:
                rep.violation('%s retries nothing' % F.name, '%s: %s has no clause for its retry predicate %s/%d' % (F.loc(ci), F.name, pred[0], pred[1]))
            called = set()
        for g in sorted(called):
            G = prog.fn(g)
            if G is None:
                continue
            retry(rep, prog, K, SLOT, F, ci, G, size[code] if size[code] < 10 ** 6 else None, code)
    rep.count(nondeterministic_builtins=nb)
    rep.need(nb, 10, 'nondeterministic C built-ins')


def dynamic_writes(F, K):
    """are argument registers written through a variable index?"""
    D = F.defs
    for b in F.blocks:
        for ins in b:
            if ins[0] == 'store' and isinstance(ins[5], int) and ins[5] in D:
                g = D[ins[5]][1]
                if g[0] == 'getelementptr' and g[6]:
                    return True
                if g[0] in ('phi', 'getelementptr') and not bank_off(F, ins[5], K) and g[0] == 'phi':
                    return True
    return False


def bank_off(F, o, K):
    D = F.defs
    if not isinstance(o, int) or o not in D:
        return None
    g = D[o][1]
    if g[0] == 'load' and g[4] == ['g', 'pl_reg_bank', 0]:
        return 0
    if g[0] == 'getelementptr' and not g[6]:
        x = bank_off(F, g[4], K)
        return None if x is None else x + g[5]
    return None


def must_write(F, ci, K):
    """offsets of the argument registers written on every path from the entry to the call ci"""
    gen = []
    for b in F.blocks:
        s = set()
        for ins in b:
            if ins is ci:
                break
            if ins[0] == 'store':
                x = bank_off(F, ins[5], K)
                if x is not None:
                    s.add(x)
        gen.append(s)
    target = next(i for i, b in enumerate(F.blocks) if any(x is ci for x in b))
    full = set().union(*gen) if gen else set()
    IN = {i: set(full) for i in range(len(F.blocks))}
    IN[0] = set()
    ch = True
    while ch:
        ch = False
        for b in F.rpo:
            if b == 0:
                continue
            ps = [p for p in F.pred[b] if p in IN and (p in F.rpo)]
            new = set.intersection(*[IN[p] | gen[p] for p in ps]) if ps else set()
            if new != IN[b]:
                IN[b] = new
                ch = True
    return IN[target] | gen[target]


def saved(prog, F, ci, K):
    """what F saves: slot -> set of (callee, argument position) that computed it, 'arg' or 'other' (over the paths to ci)"""
    target = next(i for i, b in enumerate(F.blocks) if any(x is ci for x in b))
    dom = [b for b in F.rpo if F.dominates(b, target)]
    for start in dom:
        try:
            ps = vn.Eval(prog, F).paths(limit=300, start=start)
            break
        except vn.Limit:
            pass
    else:
        return None
    out = {}
    for s in ps:
        mem = {}
        ncall = 0
        for o in s.order:
            if o[0] == 'store':
                mem[o[1]] = o[2]
                continue
            if o[3] is not ci:
                ncall += 1
                continue
            for a, v in mem.items():
                r = K.reg_of(a)
                if not isinstance(r, tuple) or r[1][1]:
                    continue
                v = plain(v)
                what = {'other'}
                if len(v[1]) == 1 and v[0] == 0:
                    x = v[1][0][0]
                    if x[0] == 'arg':
                        what = {'arg'}
                    elif x[0] == 'ld' and x[2] > 0 and len(x[1][1]) == 1 and x[1][1][0][0][0] == 'alloca':
                        what = {(c, i, x[1][0] - y[0]) for c, args, _ in s.calls[:x[2]] for i, y in enumerate(args) if y[1] == x[1][1]} or {'other'}
                out.setdefault(r[1][0] // 8, set()).update(what)
    return out


def retry(rep, prog, K, SLOT, F, ci, G, n, code):
    lo = -min(SLOT.values())
    try:
        ps = vn.Eval(prog, G).paths(limit=3000)
    except vn.Limit:
        rep.undecided.append('%s: too many paths' % G.name)
        return
    b = K.init('B')
    prevb = vn.atom(('ld', vn.off(b, SLOT['B']), 0))
    rep.count(retry_functions=1, retry_paths=len(ps))
    keep = []
    deleted = 0
    reads = set()
    for s in ps:
        upd = [i for i, (c, a, _) in enumerate(s.calls) if c and c.startswith('Pl_Update_Choice_Point')]
        dele = [c for c, a, _ in s.calls if c and c.startswith('Pl_Delete_Choice_Point')]
        if s.end not in ('ret', 'loop'):
            continue
        if not upd and not dele:
            rep.violation('%s does not resume' % G.name, '%s: a path of %s neither resumes nor removes its choice point' % (G.where, G.name))
            continue
        for c, a, ins in s.calls:
            if c and c.startswith('Pl_Update_Choice_Point') and a and a[0] != vn.atom(('g', code)) and a[0] != vn.atom(('fn', code)):
                rep.violation('%s resumes another' % G.name, '%s: %s sets an alternative other than the one it was created with' % (G.loc(ins), G.name))
        writes = {}
        gone = bool(dele)
        for a, v, ins in s.stores:
            if K.reg_of(a) == 'B':
                if v == prevb:
                    gone = True
                elif v != b:
                    rep.violation('%s removes others' % G.name, '%s: %s sets the last choice point to something else than the previous one' % (G.loc(ins), G.name))
                continue
            d = slot(a, prevb)
            if d is not None and gone and a != prevb:
                rep.violation('%s writes after removal' % G.name, '%s: %s stores in the choice point below its own' % (G.loc(ins), G.name))
                continue
            d = slot(a, b)
            if d is not None and not d[1] and d[0] <= -lo - 8:
                writes[(-d[0] - lo - 8) // 8] = v
                if gone:
                    rep.violation('%s writes after removal' % G.name, '%s: %s stores in its choice point after removing it' % (G.loc(ins), G.name))
        if gone:
            deleted += 1
        elif s.end == 'ret':
            keep.append((s, writes))
        for a, v, ins in s.stores:
            collect(v, b, lo, reads)
        for _, a, ins in s.calls:
            for x in a:
                collect(x, b, lo, reads)
        for c, _ in [x for x in s.facts if x]:
            collect(c, b, lo, reads)
    if n is not None:
        bad = sorted(i for i in reads if i >= n)
        if bad:
            rep.violation('%s reads slot %d' % (G.name, bad[0]), '%s: %s reads slot %d of a choice point that %s creates with %d slots' % (G.where, G.name, bad[0], F.name, n))
    allw = set().union(*[set(w) for _, w in keep]) if keep else set()
    sv = saved(prog, F, ci, K)
    params = sv is not None and all(x == {'arg'} for x in sv.values())
    for s, w in keep:
        own = {i: vn.atom(('ld', vn.off(b, -lo - 8 - 8 * i), 0)) for i in allw | reads | set(range(n or 0))}
        inv = {v: i for i, v in own.items()}
        miss = allw - set(w)
        if n is not None and any(i >= n for i in w):
            rep.violation('%s writes slot %d' % (G.name, max(w)), '%s: %s writes slot %d of a choice point of %d slots' % (G.where, G.name, max(w), n))
        w = {i: plain(v) for i, v in w.items()}
        for i, v in w.items():
            if v in inv and inv[v] != i:
                rep.violation('%s permutes slots' % G.name, '%s: %s stores the value of slot %d in slot %d' % (G.where, G.name, inv[v], i))
        lost = [i for i in miss if any(w2.get(i) not in (None, own[i]) for _, w2 in keep)]
        if lost and w:
            rep.violation('%s keeps slot %d' % (G.name, lost[0]), '%s: a path of %s keeps the choice point without updating slot %d' % (G.where, G.name, lost[0]))
        for i, what in sorted((sv or {}).items()):
            for cal in [x for x in what if isinstance(x, tuple)]:
                # the retry function computes the same thing: it has to save it too
                got = [args[cal[1]] for c, args, _ in s.calls if c == cal[0] and len(args) > cal[1]]
                got = [x for x in got if len(x[1]) == 1 and x[1][0][0][0] == 'alloca']
                if got and writes_through(prog, G, cal) and w.get(i, own.get(i)) == own.get(i):
                    rep.violation('%s keeps slot %d' % (G.name, i), '%s: %s computes the state of the next solution with %s but leaves the old one in slot %d' % (G.where, G.name, cal[0], i))
        inout = {}                    # local variable cell -> slot it was filled from
        for o in s.order:
            if o[0] == 'store':
                v = plain(o[2])
                if len(o[1][1]) == 1 and o[1][1][0][0][0] == 'alloca':
                    inout[o[1]] = inv.get(v)
                continue
            for a, i in inout.items():
                for k, y in enumerate(o[2]):
                    if i is not None and y[1] == a[1] and o[1] and w.get(i, own[i]) == own[i] and \
                            prog.fn(o[1], G.unit) is not None and writes_through(prog, G, (o[1], k, a[0] - y[0])):
                        rep.violation('%s keeps slot %d' % (G.name, i), '%s: %s advances the state of slot %d with %s but does not save it' % (G.where, G.name, i, o[1]))
        rep.count(keep_paths=1)
        if own and not params and not any(v != own[i] for i, v in w.items()) and not any(passes_slot(a, b) for _, a, _ in s.calls):
            rep.violation('%s does not advance' % G.name, '%s: a path of %s keeps its choice point and leaves the saved state as it was' % (G.where, G.name))
    if not deleted and keep and not any((c or '').startswith('Pl_') and prog.fn(c) is not None and deletes(prog, c, K) for s, _ in keep for c, _, _ in s.calls):
        rep.violation('%s never ends' % G.name, '%s: no path of %s removes its choice point' % (G.where, G.name))


def writes_through(prog, G, cal):
    """does the callee store at the address given as that argument?"""
    f = prog.fn(cal[0], G.unit)
    if f is None:
        return True

    def at(o, d=0):
        while isinstance(o, int) and o in f.defs and f.defs[o][1][0] == 'getelementptr' and not f.defs[o][1][6]:
            d += f.defs[o][1][5]
            o = f.defs[o][1][4]
        return o == cal[1] and d == cal[2]
    return any(ins[0] == 'store' and at(ins[5]) for b in f.blocks for ins in b)


def plain(v):
    """v without conversions"""
    while len(v[1]) == 1 and v[0] == 0 and v[1][0][1] == 1 and v[1][0][0][0] == 'trunc':
        v = v[1][0][0][2]
    return v


def passes_slot(args, b):
    """the address of (a part of) the choice point is given to a callee"""
    return any(slot(x, b) is not None and x != b for x in args if b[1])


def counter(rep, prog, f, n, count):
    """the loop over the argument registers starts at 0, ends at the number of arguments and goes up by one"""
    ok = False
    for h in f.heads:
        for ins in f.blocks[h]:
            if ins[0] != 'phi' or ins[2] == 'p':
                continue
            init = [o for pb, o in ins[4] if pb not in f.heads[h]]
            step = [o for pb, o in ins[4] if pb in f.heads[h]]
            s = [f.defs[o][1] for o in step if isinstance(o, int) and o in f.defs]
            if all(isinstance(o, list) and o == ['c', 0] for o in init) and len(s) == len(step) and all(
                    x[0] == 'add' and ins[1] in x[4] and ['c', 1] in x[4] for x in s):
                for b in f.blocks:
                    for c in b:
                        if c[0] == 'icmp' and c[5] == ins[1] and c[6] == count and c[4] in ('slt', 'ult', 'ne'):
                            ok = True
            # the same loop counted down from the number of arguments
            if all(o == count for o in init):
                ok = True
    if not ok:
        rep.violation('%s argument loop' % n, '%s: the loop of %s does not go over all arguments' % (f.where, n))


def deletes(prog, c, K):
    f = prog.fn(c)
    for b in f.blocks:
        for ins in b:
            if ins[0] == 'store' and bank_off(f, ins[5], K) == K.regs['B']:
                return True
            if ins[0] == 'call' and (ir.callee(ins) or '').startswith('Pl_Delete_Choice_Point'):
                return True
    return False


def collect(v, b, lo, out):
    """slots of the choice point b loaded inside expression v"""
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if len(x) == 3 and x[0] == 'ld' and isinstance(x[1], tuple):
                d = slot(x[1], b) if x[1] != b else None
                if d is not None and not d[1] and d[0] <= -lo - 8:
                    out.add((-d[0] - lo - 8) // 8)
            st.extend(x)


def run(rep):
    prog = ir.program()
    K = Bank()
    SLOT = frames(rep, prog, K)
    own = {f.name for f in prog.ext.values() if re.match(r'^Pl_(Create|Update|Delete)_Choice_Point\d?$', f.name)}
    assigns(rep, prog, K, SLOT, own)
    nondet(rep, prog, K, SLOT)
    for r in sorted(SLOT):
        rep.sample('choice point slot of %s at offset %d' % (r, SLOT[r]))
    return rep

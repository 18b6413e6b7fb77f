"""Inlining on IR facts: the body of a function with calls of small helpers of the same unit expanded, so that an
analysis of one function body does not depend on how the code is cut into helpers."""
import copy

from . import ir


def small(prog, g, blocks=16):
    """a helper that can be expanded: no loop, few blocks, not recursive, no variable arguments"""
    if g.varargs or len(g.blocks) > blocks or g.heads:
        return False
    return all(ir.callee(i) != g.name for _, i in g.calls())


def _shift(o, m, base, nargs):
    if isinstance(o, int):
        return m[o] if o < nargs else o - nargs + base
    if isinstance(o, list) and o and o[0] == 'ce':
        return ['ce', o[1], [_shift(x, m, base, nargs) for x in o[2]]] + o[3:]
    return o


def _map(ins, fo, fb):
    """copy of an instruction with operands through fo and block numbers through fb"""
    i = list(ins)
    op = i[0]
    if op == 'load':
        i[4] = fo(i[4])
    elif op == 'store':
        i[4], i[5] = fo(i[4]), fo(i[5])
    elif op == 'getelementptr':
        i[4] = fo(i[4])
        i[6] = [[fo(x[0])] + list(x[1:]) for x in i[6]]
    elif op == 'phi':
        i[4] = [[fb(p), fo(v)] for p, v in i[4]]
    elif op == 'br':
        if len(i) > 5:
            i[4], i[5], i[6] = fo(i[4]), fb(i[5]), fb(i[6])
        else:
            i[4] = fb(i[4])
    elif op == 'switch':
        i[4], i[5] = fo(i[4]), fb(i[5])
        i[6] = [[c[0], fb(c[1])] for c in i[6]]
    elif op in ('icmp', 'fcmp'):
        i[5], i[6] = fo(i[5]), fo(i[6])
    elif op == 'call':
        i[4] = fo(i[4])
        i[5] = [fo(x) for x in i[5]]
    elif op == 'alloca':
        i[5] = fo(i[5])
    elif op == 'extractvalue':
        i[4] = fo(i[4])
    elif op == 'insertvalue':
        i[4], i[5] = fo(i[4]), fo(i[5])
    elif len(i) > 4 and isinstance(i[4], list):
        i[4] = [fo(x) for x in i[4]]
    return i


def expand(prog, f, want=None, limit=400):
    """f with the calls want(g) accepts expanded (by default: small helpers internal to the unit)"""
    if want is None:
        want = lambda g: g.internal and small(prog, g)
    top = max([len(f.args) - 1] + [i[1] for b in f.blocks for i in b if i[1] is not None]) + 1
    blocks = [[list(i) for i in b] for b in f.blocks]
    done = set()
    inlined = set()
    nblocks0 = len(blocks)
    stack_of = {}                  # block -> chain of inlined functions
    bi = 0
    changed = False
    work = list(range(nblocks0))
    while work:
        bi = work.pop()
        b = blocks[bi]
        for k, ins in enumerate(b):
            if ins[0] != 'call' or ins[6]:
                continue
            c = ir.callee(ins)
            g = prog.fn(c, f.unit) if c else None
            if g is None or g.unit is not f.unit or g is f or g.name == f.name or len(blocks) > limit:
                continue
            ch = stack_of.get(bi, ())
            if g.name in ch or len(ch) > 3 or not want(g) or len(ins[5]) != len(g.args):
                continue
            changed = True
            inlined.add(g.name)
            nargs = len(g.args)
            m = {i: o for i, o in enumerate(ins[5])}
            base = top
            gtop = max([nargs - 1] + [i[1] for x in g.blocks for i in x if i[1] is not None]) + 1
            top += gtop - nargs
            fb0 = len(blocks)
            cont = fb0 + len(g.blocks)
            fo = lambda o, m=m, base=base, nargs=nargs: _shift(o, m, base, nargs)
            fb = lambda x, fb0=fb0: x + fb0
            rets = []
            for gi, gb in enumerate(g.blocks):
                nb = []
                for i in gb:
                    j = _map(i, fo, fb)
                    if j[1] is not None and j[1] >= 0:
                        j[1] = j[1] - nargs + base
                    if j[0] == 'ret':
                        rets.append((fb0 + gi, j[4][0] if j[4] else None))
                        j = ['br', -1, '', ins[3], cont]
                    nb.append(j)
                blocks.append(nb)
                stack_of[fb0 + gi] = ch + (g.name,)
                work.append(fb0 + gi)
            rest = b[k + 1:]
            tail = []
            if ins[1] is not None and ins[1] >= 0:
                tail.append(['phi', ins[1], ins[2], ins[3], [[p, v] for p, v in rets]])
            blocks.append(tail + rest)
            stack_of[cont] = ch
            blocks[bi] = b[:k] + [['br', -1, '', ins[3], fb0]]
            # phis of successors of the old block now come from the continuation
            t = blocks[cont][-1]
            for s in _succ(t):
                for i in blocks[s]:
                    if i[0] != 'phi':
                        break
                    i[4] = [[cont if p == bi else p, v] for p, v in i[4]]
            work.append(cont)
            break
    if not changed:
        return f
    n = ir.Fn(f.name, f.unit, dict(f.d, blocks=blocks))
    n.blocks = _singlephi(blocks)
    n.d = f.d
    return n


def _succ(t):
    if t[0] == 'br':
        return [t[4]] if len(t) == 5 else [t[5], t[6]]
    if t[0] == 'switch':
        return [t[5]] + [c[1] for c in t[6]]
    return []


def _singlephi(blocks):
    return blocks

"""Intraprocedural constant-driven path exploration: what can a function return once one call has answered a given value?"""
from . import ir

CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sgt': lambda a, b: a > b,
       'sle': lambda a, b: a <= b, 'sge': lambda a, b: a >= b}
CASTS = ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr')


def uses(f):
    u = set()
    for b in f.blocks:
        for ins in b:
            u.update(ir.instr_uses(ins))
    return u


def returns_after(prog, f, bi, ins, value, limit=6000, transfer=None, retry=False):
    """set of possible return values ('?' unknown, 'void'; empty: does not return) of f on the paths that pass the call
    `ins` of block bi when that call answers `value`.  Branches are decided by the constants that follow from it.
    With retry, a path that comes back to the same call is not followed (the call is tried again)."""
    rets = set()
    blocks = f.blocks
    live = f.live_in()
    idx = blocks[bi].index(ins)
    work = [(bi, idx + 1, None, ((ins[1], value),))]
    seen = set()

    def ev(o, env):
        if isinstance(o, list):
            return o[1] if o[0] == 'c' else 0 if o[0] == 'null' else None
        return env.get(o) if isinstance(o, int) else None

    while work:
        b, i0, prev, envt = work.pop()
        if (b, i0, prev, envt) in seen:
            continue
        seen.add((b, i0, prev, envt))
        if len(seen) > limit:
            return {'?'}
        env = dict(envt)
        blk = blocks[b]
        k = i0
        new = {}
        while k < len(blk) and blk[k][0] == 'phi':
            x = blk[k]
            for pb, o in x[4]:
                if pb == prev:
                    new[x[1]] = ev(o, env)
            k += 1
        for r, v in new.items():
            if v is None:
                env.pop(r, None)
            else:
                env[r] = v
        dead = False
        while k < len(blk):
            x = blk[k]
            k += 1
            op = x[0]
            v = None
            if retry and x is ins:
                dead = True
                break
            if op == 'call':
                c = ir.callee(x)
                if x[6] or (c and prog.is_noreturn(c, f.unit)):
                    dead = True
                    break
                if transfer is not None:
                    v = transfer(x, lambda o: ev(o, env))
            elif op == 'icmp':
                p, q = ev(x[5], env), ev(x[6], env)
                if p is not None and q is not None and x[4] in CMP:
                    v = int(CMP[x[4]](p, q))
            elif op in CASTS:
                v = ev(x[4] if not isinstance(x[4], list) or (x[4] and isinstance(x[4][0], str)) else x[4][0], env)
                if v is not None and op == 'trunc' and x[2] == 'i1':
                    v &= 1
            elif op in ('and', 'mul'):
                vs = [ev(o, env) for o in x[4][:2]]
                v = 0 if 0 in vs else (vs[0] & vs[1] if op == 'and' and None not in vs else None)
            elif op == 'xor':
                vs = [ev(o, env) for o in x[4][:2]]
                v = vs[0] ^ vs[1] if None not in vs else None
                if v is not None and x[2] == 'i1':
                    v &= 1
            elif op == 'or':
                vs = [ev(o, env) for o in x[4][:2]]
                v = vs[0] | vs[1] if None not in vs else None
            elif op == 'select':
                c = ev(x[4][0], env)
                if c is not None:
                    v = ev(x[4][1] if c else x[4][2], env)
            elif op == 'ret':
                v = ev(x[4][0], env) if x[4] else None
                rets.add('void' if not x[4] else '?' if v is None else v)
                continue
            if isinstance(x[1], int) and x[1] >= 0:
                if v is None:
                    env.pop(x[1], None)
                else:
                    env[x[1]] = v
        if dead:
            continue
        t = blk[-1]
        succ = f.succ[b]
        if t[0] == 'br' and len(t) > 5:
            c = ev(t[4], env)
            if c is not None:
                succ = [t[5] if c else t[6]]
        elif t[0] == 'switch':
            c = ev(t[4], env)
            if c is not None:
                succ = [next((tb for cv, tb in t[6] if cv == c), t[5])]
        for s in succ:
            ph = set()
            for x in blocks[s]:
                if x[0] != 'phi':
                    break
                for pb, o in x[4]:
                    if pb == b and isinstance(o, int):
                        ph.add(o)
            e = tuple(sorted((r, v) for r, v in env.items() if r in live[s] or r in ph))
            work.append((s, 0, b, e))
    return rets

"""Small instances of loop summaries.

Two summaries that differ in the way a loop carries a value are compared again for loops of a given small length: every
opaque loop bound is replaced by that length and the binders are expanded into the terms of their iterations.  This only
serves to decide *that* two summaries differ (for that length); equality is never concluded from it."""

from . import terms as TM
from .terms import mk, num, subst, walk, TRUE, FALSE, ZERO, ONE, T

EXPAND = ('fold', 'sum', 'prod', 'any', 'fmap', 'mapstore', 'map')


def closed(t):
    return not any(x.op in ('bv', 'cvk', 'cv', 'ite') for x in walk(t))


def atom_of(n, size):
    """the atom of a loop bound and its value in the instance (every atom gets the same one)"""
    if n.op in ('sym', 'attr', 'call', 'idx'):
        return n, num(size)
    if n.op == 'ord':
        return n, num(size - 1)
    if n.op == 'poly':
        c, a = 0, None
        for m, k in n.args:
            if not m:
                c = k
            elif a is None and k == 1 and len(m) == 1 and m[0][1] == ONE or a is None and k == 1 and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
            else:
                return None
        if a is not None and c == int(c) and a.op in ('sym', 'attr', 'call', 'idx', 'ord'):
            return a, num(size - 1 if a.op == 'ord' else size)
    return None


def bounds(ts):
    out = {}
    for t in ts:
        for x in walk(t):
            if x.op in EXPAND and isinstance(x.args[0], T) and x.args[0].op != 'num' and closed(x.args[0]):
                out[x.args[0]] = 1
    return sorted(out, key=lambda t: t.key)


def expand(t):
    memo = {}

    def arg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(arg(x) for x in a)
        return a

    def go(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = step(x)
        return r

    def step(x):
        TM._tick()
        if not x.args or x.op in ('num', 'str', 'bool', 'none', 'sym', 'const', 'glob'):
            return x
        if x.op in EXPAND and isinstance(x.args[0], T) and x.args[0].op == 'num' and 0 <= x.args[0].args[0] <= 3:
            n = int(x.args[0].args[0])
            o, outer, inner, cvs = TM.open_binder(x)
            if x.op == 'fold':
                vals = [go(v) for v in outer[2:]]
                for k in range(n):
                    m = {o: num(k)}
                    m.update(zip(cvs, vals))
                    if any(v.op == 'ite' for v in vals):
                        vals = [go(split(b, o, num(k), cvs, vals)) for b in inner]
                    else:
                        vals = [go(subst(b, m)) for b in inner]
                return vals[outer[1]]
            it = [tuple(go(subst(b, {o: num(k)})) for b in inner) for k in range(n)]
            if x.op == 'sum':
                r = ZERO
                for (b,) in it:
                    r = TM.add(r, b)
                return r
            if x.op == 'prod':
                r = ONE
                for (b,) in it:
                    r = TM.mul(r, b)
                return r
            if x.op == 'any':
                return TM.or_(*[b for (b,) in it])
            if x.op == 'map':
                return TM.lst(*[b for (b,) in it])
            if x.op == 'fmap':
                r = TM.lst()
                for c, b in it:
                    r = TM.ite(c, TM.concat(r, TM.lst(b)), r)
                return r
            if x.op == 'mapstore':
                r = go(outer[1])
                for c, i, v in it:
                    r = TM.ite(c, TM.lift('store', r, i, v), r)
                return r
        if x.op in TM.BINDERS:
            return x
        na = tuple(arg(a) for a in x.args)
        return x if na == x.args else TM.rebuild(x.op, na)
    return go(t)


def split(b, o, k, cvs, vals):
    """instantiate a loop body for carried values that are case distinctions"""
    b = subst(b, {o: k})

    def rec(b, vals):
        for v in vals:
            if v.op == 'ite':
                a = v.args[0]
                return TM.join(a, rec(TM.constrain(b, a, True), [TM.constrain(w, a, True) for w in vals]),
                               rec(TM.constrain(b, a, False), [TM.constrain(w, a, False) for w in vals]))
        return subst(b, dict(zip(cvs, vals)))
    return rec(b, list(vals))


def instance(ts, size):
    """ts with every loop of the given length, or None if some bound cannot be fixed"""
    ts = list(ts)
    for _ in range(4):
        bs = bounds(ts)
        ts2 = ts
        m = {}
        for n in bs:
            a = atom_of(n, size)
            if a is not None and a[0] not in m and not any(TM.mentions(a[0], q) or TM.mentions(q, a[0]) for q in m):
                m[a[0]] = a[1]
        if m:
            for a in m:
                if a.op == 'call' and a.args[0] == 'len' and m[a].args[0] > 0:
                    tr = mk('truth', TM.strip_fresh(a.args[1][0]))
                    ts2 = [TM.constrain(t, tr, True) for t in ts2]
            ts2 = [subst(t, m) for t in ts2]
        ts2 = [expand(t) for t in ts2]
        if all(x is y for x, y in zip(ts, ts2)):
            break
        ts = ts2
    return ts

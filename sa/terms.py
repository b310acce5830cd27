"""Hash-consed value terms with a canonical form.

Every value that the evaluator computes is a term T.  Terms are canonical by
construction as far as possible:

* arithmetic is kept as polynomials with rational coefficients over atoms
  (atoms are all non-arithmetic terms), so commutativity, associativity,
  distributivity and constant folding disappear;
* conditionals are multi-terminal decision diagrams over boolean atoms, ordered
  by atom key, and every constructor lifts over them, so that if/else, early
  return, De Morgan and conditional expressions have one form;
* comparisons are reduced to the sign of a polynomial (eq0 / lt0);
* loops and comprehensions are binders over an index domain (map, sum, any,
  first, last, fold ...) with a locally-nameless bound variable.
"""
from fractions import Fraction
import hashlib

_INTERN = {}


class TooBig(Exception):
    pass


class T(object):
    __slots__ = ('op', 'args', 'key', '_sup', '_h', '_fv', 'skey')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.key < other.key


def _kpart(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_kpart(x) for x in a) + ')'
    return type(a).__name__[0] + repr(a)


def mk(op, *args):
    k = (op,) + args
    try:
        t = _INTERN.get(k)
    except TypeError:
        raise
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    s = op + '(' + ','.join(_kpart(a) for a in args) + ')'
    t.key = hashlib.blake2b(s.encode(), digest_size=12).hexdigest()
    t.skey = None
    t._h = hash(t.key)
    t._sup = None
    t._fv = None
    _INTERN[k] = t
    return t


def reset_intern():
    _INTERN.clear()
    _init_consts()


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return mk('const', repr(x))
        x = Fraction(repr(x))
    return mk('num', Fraction(x))


def string(s):
    return mk('str', s)


def sym(n):
    return mk('sym', n)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, str):
        return string(v)
    if isinstance(v, complex):
        return mk('const', repr(v))
    if isinstance(v, bytes):
        return mk('const', repr(v))
    if v is Ellipsis:
        return mk('slice', NONE, NONE, NONE)
    return mk('const', repr(v))


def _init_consts():
    g = globals()
    g['TRUE'] = mk('bool', True)
    g['FALSE'] = mk('bool', False)
    g['NONE'] = mk('none')
    g['ZERO'] = num(0)
    g['ONE'] = num(1)
    g['FULL'] = mk('slice', g['NONE'], g['NONE'], g['NONE'])


_init_consts()

# --------------------------------------------------------------------------
# children / substitution


def _children_of(a, out):
    if isinstance(a, T):
        out.append(a)
    elif isinstance(a, tuple):
        for x in a:
            _children_of(x, out)


def children(t):
    out = []
    for a in t.args:
        _children_of(a, out)
    return out


def walk(t, seen=None):
    """all distinct subterms"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def walk_all(ts):
    seen = set()
    for t in ts:
        for x in walk(t, seen):
            yield x


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def mentions(t, target):
    """memoised containment of a specific leaf term"""
    return contains(t, lambda x: x is target)


BINDERS = {'map', 'fmap', 'sum', 'prod', 'any', 'first', 'last', 'fold', 'mapstore',
           'psum', 'count', 'lam', 'maxof', 'minof', 'dictmap', 'setmap', 'flat', 'prevval',
           'argmaxof', 'argminof', 'tloop'}


def height(t):
    if t._fv is not None:
        return t._fv
    h = 0
    for c in children(t):
        hc = height(c)
        if hc > h:
            h = hc
    if t.op in BINDERS:
        h += 1
    t._fv = h
    return h


def rebuild(op, args):
    """re-canonicalise a node whose children changed"""
    f = _REBUILD.get(op)
    if f is not None:
        return f(*args)
    return lift(op, *args)


LEAF = ('ord', 'bv', 'cvk', 'cv')
_OPEN = [0]


def subst(t, mapping, memo=None):
    """simultaneous substitution term->term, rebuilding canonical forms"""
    if memo is None:
        memo = {}
    leaf = all(k.op in LEAF and v.op in LEAF for k, v in mapping.items())
    touched = {}

    def touch(x):
        r = touched.get(x)
        if r is None:
            r = x in mapping or any(touch(c) for c in children(x))
            touched[x] = r
        return r

    def go_arg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(go_arg(x) for x in a)
        return a

    def go(x):
        r = mapping.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if not x.args or x.op in ('num', 'str', 'bool', 'none', 'sym', 'const', 'glob'):
            memo[x] = x
            return x
        if x.op in BINDERS and x.op != 'flat':
            if leaf:
                na = tuple(go_arg(a) for a in x.args)
                r = x if na == x.args else mk(x.op, *na)
            elif not touch(x):
                r = x
            else:
                o, outer, inner, cvs = open_binder(x)
                r = close_binder(x.op, o, tuple(go_arg(a) for a in outer), tuple(go_arg(a) for a in inner), cvs)
            memo[x] = r
            return r
        na = tuple(go_arg(a) for a in x.args)
        if na == x.args:
            r = x
        else:
            r = rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def inner_count(x):
    """number of argument positions of a binder that are in its scope"""
    if x.op == 'fold':
        return (len(x.args) - 2) // 2
    return {'fmap': 2, 'mapstore': 3}.get(x.op, 1)


def open_binder(x):
    """replace the bound variable (and the carried values of a fold) by fresh free ones"""
    _OPEN[0] += 1
    u = _OPEN[0]
    k = inner_count(x)
    o = mk('ord', '^%d' % u)
    H = height(x)
    m = {bv(H): o}
    cvs = ()
    if x.op == 'fold':
        cvs = tuple(mk('cv', '^%d' % u, j) for j in range(k))
        for j in range(k):
            m[mk('cvk', H, j)] = cvs[j]
    memo = {}
    return o, x.args[:-k], tuple(subst(a, m, memo) for a in x.args[-k:]), cvs


def close_binder(op, o, outer, inner, cvs):
    if op == 'map':
        return bmap(o, outer[0], inner[0])
    if op == 'sum':
        return bsum(o, outer[0], inner[0])
    if op == 'fmap':
        return bfmap(o, outer[0], inner[0], inner[1])
    if op == 'any':
        return bany(o, outer[0], inner[0])
    if op == 'mapstore':
        return bmapstore(o, outer[0], outer[1], *inner)
    return mkbinder(op, o, outer, inner, cvs)


# --------------------------------------------------------------------------
# decision diagrams

LIMIT = [0]
LIMIT_MAX = int(__import__("os").environ.get("SA_LIMIT", 80000))


def _tick(n=1):
    LIMIT[0] += n
    if LIMIT[0] > LIMIT_MAX:
        raise TooBig()


def reset_limit():
    LIMIT[0] = 0


def akey(a):
    """ordering key of a boolean atom; eq0(p) comes right before lt0(p)"""
    if a.skey is None:
        if a.op == 'eq0':
            a.skey = (a.args[0].key, 0)
        elif a.op == 'lt0':
            a.skey = (a.args[0].key, 1)
        else:
            a.skey = (a.key, 0)
    return a.skey


def support(t):
    """the boolean atoms a decision diagram tests"""
    if t._sup is not None:
        return t._sup
    if t.op != 'ite':
        s = frozenset()
    else:
        s = support(t.args[1]) | support(t.args[2]) | frozenset((t.args[0],))
    t._sup = s
    return s


def cofactor(t, atom, val, memo=None):
    if atom not in support(t):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    a, hi, lo = t.args
    if a is atom:
        r = hi if val else lo
        r = cofactor(r, atom, val, memo)
    else:
        r = mk_ite(a, cofactor(hi, atom, val, memo), cofactor(lo, atom, val, memo))
    memo[t] = r
    return r


_LIN = {}


def _lin(p):
    """(non-constant part, negated non-constant part, constant) of a polynomial term"""
    r = _LIN.get(p)
    if r is None:
        d = pd(strip_fresh(p))
        r = (frozenset((m, c) for m, c in d.items() if m != ()), frozenset((m, -c) for m, c in d.items() if m != ()),
             d.get((), Fraction(0)))
        _LIN[p] = r
    return r


def _const_diff(p, q):
    """p - q if constant else None"""
    if p.op == 'ite' or q.op == 'ite':
        d = add(p, neg(q))
        return d.args[0] if d.op == 'num' else None
    a, b = _lin(p), _lin(q)
    return a[2] - b[2] if a[0] == b[0] else None


def _const_sum(p, q):
    """-p - q if constant else None"""
    if p.op == 'ite' or q.op == 'ite':
        d = add(neg(p), neg(q))
        return d.args[0] if d.op == 'num' else None
    a, b = _lin(p), _lin(q)
    return -a[2] - b[2] if a[1] == b[0] else None


def implied(atom, val):
    """literals implied by atom=val as function other_atom -> bool or None"""
    op = atom.op
    if op == 'eq0':
        p = atom.args[0]

        def f(o):
            if val:
                if o.op in ('eq0', 'lt0'):
                    d = _const_diff(o.args[0], p)
                    if d is not None:
                        return (d == 0) if o.op == 'eq0' else (d < 0)
                    d = _const_sum(o.args[0], p)
                    if d is not None:
                        # o.arg = -(p + d) ; p == 0 -> o.arg = -d
                        return (d == 0) if o.op == 'eq0' else (d > 0)
                if o.op == 'truth' and o.args[0] is p:
                    return False
            else:
                if o.op == 'truth' and o.args[0] is p:
                    return True
            return None
        return f
    if op == 'lt0':
        p = atom.args[0]

        def f(o):
            if o.op in ('eq0', 'lt0'):
                d = _const_diff(o.args[0], p)   # o.arg = p + d
                if d is not None:
                    if val:   # p < 0
                        if o.op == 'lt0':
                            return True if d <= 0 else None
                        return False if d <= 0 else None
                    else:     # p >= 0
                        if o.op == 'lt0':
                            return False if d >= 0 else None
                        return False if d > 0 else None
                d = _const_sum(o.args[0], p)  # o.arg = -p - d
                if d is not None:
                    if val:   # -p > 0
                        if o.op == 'lt0':
                            return False if -d >= 0 else None
                        return False if -d >= 0 else None
                    else:     # -p <= 0
                        if o.op == 'lt0':
                            return True if -d < 0 else None
                        return False if -d < 0 else None
            return None
        return f
    if op == 'eq':
        a, b = atom.args

        def f(o):
            if val and o.op == 'eq' and o is not atom:
                for x, y in ((a, b), (b, a)):
                    if is_const(y):
                        for u, v in (o.args, o.args[::-1]):
                            if u is x and is_const(v) and v is not y:
                                return False
            if val and o.op == 'isnone' and (o.args[0] is a and is_const(b) or o.args[0] is b and is_const(a)):
                return False
            return None
        return f
    if op == 'isnone':
        x = atom.args[0]

        def f(o):
            if val:
                if o.op == 'truth' and o.args[0] is x:
                    return False
                if o.op == 'eq' and x in o.args:
                    other = o.args[0] if o.args[1] is x else o.args[1]
                    if is_const(other):
                        return False
                if o.op == 'isinst' and o.args[0] is x:
                    return False
                if o.op in ('eq0', 'lt0') and False:
                    return None
            return None
        return f
    if op == 'truth':
        x = atom.args[0]

        def f(o):
            if val and o.op == 'isnone' and o.args[0] is x:
                return False
            if val and o.op == 'eq0' and o.args[0] is x:
                return False
            return None
        return f
    if op == 'isinst' and val:
        x = atom.args[0]

        def f(o):
            if o.op == 'isnone' and o.args[0] is x:
                return False
            return None
        return f
    return lambda o: None


def is_const(t):
    return t.op in ('num', 'str', 'bool', 'none', 'const')


def constrain(t, atom, val):
    """simplify t assuming atom=val, also using simple implications"""
    s = support(t)
    if not s:
        return t
    if atom in s:
        t = cofactor(t, atom, val)
        s = support(t)
    if s:
        f = implied(atom, val)
        for o in s:
            if o is atom:
                continue
            v = f(o)
            if v is not None:
                t = cofactor(t, o, v)
    return t


def mk_ite(atom, hi, lo):
    """hi/lo must only test atoms above `atom` in order (callers use ite())"""
    hi = constrain(hi, atom, True)
    lo = constrain(lo, atom, False)
    if hi is lo:
        return hi
    # p == 0 decides the sign test that follows it: no need for the equality when both agree
    if atom.op == 'eq0' and lo.op == 'ite' and lo.args[0].op == 'lt0' and lo.args[2] is hi:
        if implied(atom, True)(lo.args[0]) is False:
            return lo
    if atom.op == 'eq0' and lo.op == 'ite' and lo.args[0].op == 'lt0' and lo.args[1] is hi:
        if implied(atom, True)(lo.args[0]) is True:
            return lo
    return mk('ite', atom, hi, lo)


def topatom(ts):
    best = None
    for t in ts:
        if t.op == 'ite':
            a = t.args[0]
            if best is None or akey(a) < akey(best):
                best = a
    return best


def apply(f, *ts):
    """apply leaf function f over decision diagrams"""
    if not any(t.op == 'ite' for t in ts):
        return f(*ts)
    memo = {}

    def go(ts):
        r = memo.get(ts)
        if r is not None:
            return r
        _tick()
        a = topatom(ts)
        if a is None:
            r = f(*ts)
        else:
            hi = go(tuple(constrain(t, a, True) for t in ts))
            lo = go(tuple(constrain(t, a, False) for t in ts))
            r = join(a, hi, lo)
        memo[ts] = r
        return r
    return go(tuple(ts))


def join(a, hi, lo):
    """ite on atom a for arbitrary diagrams hi, lo (re-orders when needed)"""
    if hi is lo:
        return hi
    ka = akey(a)
    th = topatom((hi, lo))
    if th is None or ka < akey(th):
        return mk_ite(a, hi, lo)
    if th is a:
        return mk_ite(a, constrain(hi, a, True), constrain(lo, a, False))
    _tick()
    h = join(a, cofactor(hi, th, True), cofactor(lo, th, True))
    l = join(a, cofactor(hi, th, False), cofactor(lo, th, False))
    return mk_ite(th, h, l)


def ite(c, a, b):
    """if-then-else with a boolean-valued diagram c"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != 'ite':
        c = truth(c)
        if c.op != 'ite':
            return a if c is TRUE else b
    memo = {}

    def go(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if c.op != 'ite':
            c = truth(c)
            if c.op != 'ite':
                return a if c is TRUE else b
        k = (c, a, b)
        r = memo.get(k)
        if r is not None:
            return r
        _tick()
        t = topatom((c, a, b))
        r = mk_ite(t, go(constrain(c, t, True), constrain(a, t, True), constrain(b, t, True)),
                   go(constrain(c, t, False), constrain(a, t, False), constrain(b, t, False)))
        memo[k] = r
        return r
    return go(c, a, b)


def leaves(t):
    """list of (literals tuple, leaf)"""
    out = []

    def go(x, lits):
        if x.op == 'ite':
            go(x.args[1], lits + ((x.args[0], True),))
            go(x.args[2], lits + ((x.args[0], False),))
        else:
            out.append((lits, x))
    go(t, ())
    return out


def leafset(t):
    seen = set()
    out = []

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'ite':
            go(x.args[1])
            go(x.args[2])
        else:
            out.append(x)
    go(t)
    return out


def atomvar(a):
    return mk('ite', a, TRUE, FALSE)


def not_(c):
    return ite(truth(c), FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, truth(c), FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, truth(c))
    return r


def xor(a, b):
    return ite(a, not_(b), b)


def truth(x):
    """boolean value of a term"""
    def f(x):
        if x is TRUE or x is FALSE:
            return x
        if x is NONE:
            return FALSE
        if x.op == 'num':
            return TRUE if x.args[0] != 0 else FALSE
        if x.op == 'str':
            return TRUE if x.args[0] else FALSE
        if x.op in ('list', 'tuple', 'dict', 'set'):
            return TRUE if x.args else FALSE
        if x.op in ('lam', 'glob', 'inst', 'clo', 'bound', 'lamtr', 'genobj'):
            return TRUE
        if x.op == 'fresh':
            return truth(x.args[0])
        if x.op == 'any':
            return atomvar(x)
        if x.op == 'map':
            # non-empty iff the domain is
            return truth_len(x.args[0])
        if x.op in ('eq0', 'lt0', 'eq', 'isnone', 'isinst', 'in', 'truth', 'any', 'exc', 'guess'):
            return atomvar(x)
        if x.op == 'call' and x.args[0] == 'len':
            return truth(x.args[1][0])
        if x.op == 'call' and x.args[0].rsplit('.', 1)[-1] == 'isnan' and x.args[1] and x.args[1][0].op == 'num':
            return FALSE
        if x.op == 'poly':
            return not_(cmp_('==', x, ZERO))
        return atomvar(mk('truth', x))
    return apply(f, x)


def truth_len(n):
    return truth(n)


# --------------------------------------------------------------------------
# polynomials: op 'poly', args = ((mono, coeff), ...) ; mono = ((atom, exp), ...)


def pd(t):
    """term -> dict mono->coeff"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args)
    if t.op == 'bool':
        return {(): Fraction(int(t.args[0]))} if t.args[0] else {}
    return {((t, Fraction(1)),): Fraction(1)}


def pt(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    if len(items) > 400:
        raise TooBig()
    return mk('poly', *[(m, c) for m, c in items])


def _mkey(m):
    return [(a.key, e) for a, e in m]


def strip_fresh(t):
    while t.op == 'fresh':
        t = t.args[0]
    return t


def _num_ok(t):
    return t.op not in ('str', 'list', 'tuple', 'concat', 'map', 'fmap', 'dict', 'none', 'rep', 'flat')


SEQ_OPS = ('str', 'list', 'tuple', 'concat', 'map', 'fmap', 'rep', 'flat', 'fmt', 'strcat')


def add(a, b):
    def f(a, b):
        a = strip_fresh(a)
        b = strip_fresh(b)
        if a is ZERO:
            return b
        if b is ZERO:
            return a
        if a.op in SEQ_OPS or b.op in SEQ_OPS:
            return concat(a, b)
        d = pd(a)
        for m, c in pd(b).items():
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
        return pt(d)
    return apply(f, a, b)


def concat(a, b):
    parts = []
    for x in (a, b):
        x = strip_fresh(x)
        if x.op == 'concat':
            parts.extend(x.args)
        elif x.op in ('list', 'tuple') and not x.args:
            continue
        else:
            parts.append(x)
    out = []
    for x in parts:
        if out and x.op in ('list', 'tuple') and out[-1].op == x.op:
            out[-1] = mk(x.op, *(out[-1].args + x.args))
        elif out and x.op == 'str' and out[-1].op == 'str':
            out[-1] = string(out[-1].args[0] + x.args[0])
        else:
            out.append(x)
    if not out:
        return a if a.op in ('list', 'tuple') else mk('list')
    if len(out) == 1:
        return out[0]
    return mk('concat', *out)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    exps = []
    for m in (m1, m2):
        for a, e in m:
            if a.op == 'exp':
                exps.append((a, e))
            else:
                d[a] = d.get(a, 0) + e
    if exps:
        tot = ZERO
        for a, e in exps:
            tot = add(tot, mul(num(e), a.args[0]))
        if tot is not ZERO:
            d[mk('exp', tot)] = Fraction(1)
    it = [(a, e) for a, e in d.items() if e != 0]
    it.sort(key=lambda ae: (ae[0].key, ae[1]))
    return tuple(it)


def elementwise(t):
    """a factor that is no number of repetitions: the other operand is an array"""
    if t.op in ('list', 'concat', 'tuple', 'rep', 'mean', 'map', 'fmap'):
        return True
    if t.op == 'call':
        return t.args[0] in ('mean', 'dot', 'exp', 'log', 'sqrt')
    if t.op == 'poly':
        return any(elementwise(x) for m, c in pd(t).items() for x, e in m) or any(c.denominator != 1 for c in pd(t).values())
    return False


def mul(a, b):
    def f(a, b):
        a = strip_fresh(a)
        b = strip_fresh(b)
        if a is ZERO or b is ZERO:
            return ZERO
        if a is ONE:
            return b
        if b is ONE:
            return a
        for x, y in ((a, b), (b, a)):
            if x.op in SEQ_OPS and x.op not in ('map', 'fmap', 'flat') and not elementwise(y):
                return mk('rep', x, y)
        da, db = pd(a), pd(b)
        if len(da) * len(db) > 600:
            raise TooBig()
        d = {}
        for m1, c1 in da.items():
            for m2, c2 in db.items():
                m = _mono_mul(m1, m2)
                n = d.get(m, 0) + c1 * c2
                if n == 0:
                    d.pop(m, None)
                else:
                    d[m] = n
        return _cancel(pt(d))
    return apply(f, a, b)


def _cancel(t):
    return t


def _content(t):
    """leading coefficient normalisation of a polynomial atom: (coeff, monic poly)"""
    if t.op != 'poly':
        return Fraction(1), t
    c = t.args[0][1]
    if c == 1:
        return c, t
    return c, pt({m: k / c for m, k in t.args})


def pow_(a, b):
    def f(a, b):
        a = strip_fresh(a)
        b = strip_fresh(b)
        if b.op == 'num':
            e = b.args[0]
            if e == 0:
                return ONE
            if e == 1:
                return a
            if a.op == 'num':
                if e.denominator == 1 and (a.args[0] != 0 or e > 0) and abs(e) < 64:
                    return mk('num', a.args[0] ** int(e))
                return mk('pow', a, b)
            if a.op == 'poly' and len(a.args) == 1:
                m, c = a.args[0]
                if e.denominator == 1:
                    r = mk('num', c ** int(e))
                    for at, x in m:
                        if at.op == 'exp':
                            r = mul(r, mk('exp', mul(num(e), at.args[0])))
                        else:
                            r = mul(r, pt({((at, x * e),): Fraction(1)}))
                    return r
            if a.op == 'poly' and e.denominator == 1 and 0 < e <= 4:
                r = a
                for _ in range(int(e) - 1):
                    r = mul(r, a)
                return r
            if a.op == 'exp':
                return mk('exp', mul(b, a.args[0]))
            if a.op == 'poly':
                c, mon = _content(a)
                if c != 1:
                    if e.denominator == 1:
                        return mul(mk('num', c ** int(e)), pow_(mon, b))
                return pt({((a, e),): Fraction(1)})
            return pt({((a, e),): Fraction(1)})
        return mk('pow', a, b)
    return apply(f, a, b)


def div(a, b):
    return mul(a, pow_(b, num(-1)))


def exp_(a):
    def f(a):
        a = strip_fresh(a)
        if a is ZERO:
            return ONE
        return mk('exp', a)
    return apply(f, a)


def floordiv(a, b):
    def f(a, b):
        if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
            return num(a.args[0] // b.args[0])
        if b is ONE:
            return a
        return mk('floordiv', a, b)
    return apply(f, a, b)


def mod(a, b):
    def f(a, b):
        if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
            return num(a.args[0] % b.args[0])
        if a.op in ('str', 'fmt', 'concat'):
            return mk('fmt', a, b)
        return mk('mod', a, b)
    return apply(f, a, b)


INT_ATTRS = {'indim', 'outdim', 'paramdim', 'offset', 'dim', 'numStates', 'numActions', 'size',
             'maxComplexity', 'numParameters', 'hdim', 'visibleDim', 'hiddenDim', 'endmarker', 'sequential',
             'samplenumber', 'stepid', 'currentSeq', 'index', 'numberOfNeighbours', 'mu', 'lambada',
             'inSliceFrom', 'inSliceTo', 'outSliceFrom', 'outSliceTo', 'nClasses', 'inOffset', 'outOffset',
             'sliceSize', 'timesteps', 'timedim', 'indims', 'epoch', 'totalepochs', 'populationSize', 'batchSize',
             'numLearningSteps', 'numEvaluations', 'maxEvaluations', 'maxLearningSteps'}


def is_int(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op == 'bool':
        return True
    if t.op == 'poly':
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and is_int(a) for a, e in m)
                   for m, c in t.args)
    if t.op in ('ord', 'bv', 'floordiv', 'count'):
        return True
    if t.op == 'mod':
        return is_int(t.args[0]) and is_int(t.args[1])
    if t.op == 'call':
        return t.args[0] in ('len', 'int', 'argmax', 'argmin', 'shape')
    if t.op == 'idx':
        b = t.args[0]
        return b.op == 'attr' and b.args[1] == 'shape' or b.op == 'call' and b.args[0] == 'shape'
    if t.op == 'attr':
        return t.args[1] in INT_ATTRS
    if t.op == 'after':
        return is_int(t.args[1])
    return False


def _pos_normal(p):
    """return (sign, q) with q having positive leading coefficient 1-normalised, p = k*q, sign=sign(k)"""
    if p.op != 'poly':
        return 1, p
    # choose the leading coefficient as that of first non constant monomial
    lead = None
    for m, c in p.args:
        if m != ():
            lead = c
            break
    if lead is None:
        lead = p.args[0][1]
    return (1 if lead > 0 else -1), pt({m: c / abs(lead) * (1 if lead > 0 else -1) for m, c in p.args})


def eq0(p):
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    _, q = _pos_normal(p)
    if q.op == 'poly' and all(all(e.denominator == 1 and e > 0 and is_int(a) for a, e in m) for m, c in q.args):
        # integer equation: no solution when the gcd of the coefficients does not divide the constant
        from math import gcd, lcm
        l = 1
        for m, c in q.args:
            l = lcm(l, c.denominator)
        g = 0
        k = 0
        for m, c in q.args:
            if m == ():
                k = int(c * l)
            else:
                g = gcd(g, int(c * l))
        if g and k % g:
            return FALSE
    return atomvar(mk('eq0', q))


def lt0(p):
    """p < 0"""
    if p.op == 'num':
        return TRUE if p.args[0] < 0 else FALSE
    s, q = _pos_normal(p)
    integer = is_int(q)
    if s > 0:
        return atomvar(mk('lt0', q))
    # -q < 0  <=> q > 0
    if integer:
        # q > 0 <=> not (q - 1 < 0)
        return not_(atomvar(mk('lt0', sub(q, ONE)))) if _pos_normal(sub(q, ONE))[0] > 0 else \
            ite(atomvar(mk('eq0', q)), FALSE, not_(atomvar(mk('lt0', q))))
    return ite(atomvar(mk('eq0', q)), FALSE, not_(atomvar(mk('lt0', q))))


def le0(p):
    if p.op == 'num':
        return TRUE if p.args[0] <= 0 else FALSE
    s, q = _pos_normal(p)
    if s > 0 and is_int(q):
        return atomvar(mk('lt0', sub(q, ONE)))
    if s < 0:
        # q >= 0
        return not_(atomvar(mk('lt0', q)))
    return ite(atomvar(mk('eq0', q)), TRUE, atomvar(mk('lt0', q)))


def numericish(t):
    return t.op in ('num', 'poly', 'exp', 'pow', 'floordiv', 'sum', 'ord', 'bv', 'count', 'prod') or \
        (t.op == 'call' and t.args[0] in ('len', 'abs', 'sqrt', 'dot', 'sum', 'mean', 'log', 'sin', 'cos', 'int', 'shape', 'size'))


def cmp_(op, a, b):
    def f(a, b):
        a = strip_fresh(a)
        b = strip_fresh(b)
        if op in ('==', '!='):
            r = eq_(a, b)
            return r if op == '==' else not_(r)
        if op in ('is', 'is not'):
            r = is_(a, b)
            return r if op == 'is' else not_(r)
        if op in ('in', 'not in'):
            r = in_(a, b)
            return r if op == 'in' else not_(r)
        if op == '<':
            r = lt0(sub(a, b)) if _cmpable(a, b) else atomvar(mk('guess', 'lt', a, b))
        elif op == '>':
            r = lt0(sub(b, a)) if _cmpable(a, b) else atomvar(mk('guess', 'lt', b, a))
        elif op == '<=':
            r = le0(sub(a, b)) if _cmpable(a, b) else atomvar(mk('guess', 'le', a, b))
        elif op == '>=':
            r = le0(sub(b, a)) if _cmpable(a, b) else atomvar(mk('guess', 'le', b, a))
        else:
            raise ValueError(op)
        return _lenfix(r, a, b)
    return apply(f, a, b)


def _lenfix(r, a, b):
    """len(x) compared with 0/1: truth(x)"""
    if r.op == 'ite' and r.args[0].op == 'lt0':
        q = r.args[0].args[0]
        d = pd(q)
        if len(d) == 2 and d.get(()) == -1:
            (m,) = [m for m in d if m != ()]
            if d[m] == 1 and len(m) == 1 and m[0][1] == 1:
                at = m[0][0]
                if at.op == 'call' and at.args[0] == 'len':
                    t = truth(at.args[1][0])
                    return ite(t, r.args[2], r.args[1])
        elif len(d) == 1:
            (m,) = d
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'call' and m[0][0].args[0] == 'len':
                return r.args[2]   # len(x) < 0 is false
    return r


def _cmpable(a, b):
    bad = ('str', 'list', 'tuple', 'none', 'concat')
    return a.op not in bad and b.op not in bad


def eq_(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.op in ('num', 'bool') and b.op in ('num', 'bool'):
            return TRUE if Fraction(a.args[0]) == Fraction(b.args[0]) else FALSE
        return FALSE
    for x, y in ((a, b), (b, a)):
        if y is NONE:
            return is_(x, y)
        if x.op == 'call' and x.args[0] == 'len' and y is ZERO:
            return not_(truth(x.args[1][0]))
        if y is TRUE:
            return truth(x)
        if y is FALSE:
            return not_(truth(x))
    if a.op in ('tuple', 'list') and b.op == a.op:
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[cmp_('==', x, y) for x, y in zip(a.args, b.args)])
    if (numericish(a) or numericish(b)) and a.op not in ('str', 'list', 'tuple') and b.op not in ('str', 'list', 'tuple'):
        return eq0(sub(a, b))
    if a.key > b.key:
        a, b = b, a
    return atomvar(mk('eq', a, b))


NEVER_NONE = {'flatten', 'ones', 'zeros', 'len', 'abs', 'sqrt', 'sorted', 'items', 'keys', 'values', 'reshape', 'mean', 'log',
              'transpose', 'shape', 'size', 'sum', 'dot', 'outer', 'int', 'str', 'floor', 'sin', 'cos', 'clip'}


def is_(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if y is NONE:
            if x.op in ('num', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'poly', 'lam', 'clo', 'lamtr', 'genobj', 'inst', 'map', 'fmap',
                        'fresh', 'concat', 'glob', 'ord', 'sum', 'exp', 'store', 'bound', 'const', 'pow', 'fmt', 'arr'):
                return FALSE
            if x.op == 'sym' and x.args[0].endswith('\u00b0'):
                return FALSE
            if x.op == 'call' and x.args[0] in NEVER_NONE:
                return FALSE
            return atomvar(mk('isnone', x))
        if y is TRUE:
            return truth(x)
        if y is FALSE:
            return not_(truth(x))
    if is_const(a) and is_const(b):
        return eq_(a, b)
    if a.key > b.key:
        a, b = b, a
    return atomvar(mk('eq', a, b))


def in_(a, b):
    if b.op in ('list', 'tuple', 'set') and all(not x.op.startswith('*') for x in b.args):
        return or_(*[cmp_('==', a, x) for x in b.args]) if b.args else FALSE
    if b.op == 'call' and b.args[0] == 'keys':
        b = b.args[1][0]
    if b.op == 'dict':
        return or_(*[cmp_('==', a, kv[0]) for kv in b.args]) if b.args else FALSE
    return atomvar(mk('in', a, b))


# --------------------------------------------------------------------------
# generic lifted constructor

TSEQ0 = mk('tseq')


def lift(op, *args):
    """construct op(args) lifting over decision diagrams in direct T args (and T's in tuples one level)"""
    flat = []
    for a in args:
        if isinstance(a, T):
            flat.append(a)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, T):
                    flat.append(x)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            flat.append(y)
    if not any(t.op == 'ite' for t in flat):
        return mk(op, *args)

    def f(*leafs):
        it = iter(leafs)

        def conv(a):
            if isinstance(a, T):
                return next(it)
            if isinstance(a, tuple):
                return tuple(next(it) if isinstance(x, T) else
                             (tuple(next(it) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x)
                             for x in a)
            return a
        return rebuild(op, tuple(conv(a) for a in args)) if op in _REBUILD else mk(op, *[conv(a) for a in args])
    return apply(f, *flat)


def lst(*xs):
    return mk('list', *xs)


def tup(*xs):
    return mk('tuple', *xs)


# indexing -------------------------------------------------------------

def slc(lo=None, hi=None, step=None):
    lo = NONE if lo is None else lo
    hi = NONE if hi is None else hi
    step = NONE if step is None else step
    if lo is ZERO:
        lo = NONE
    if step is ONE:
        step = NONE
    return lift('slice', lo, hi, step)


def dictlike(x):
    while True:
        if x.op == 'store':
            x = x.args[0]
        elif x.op == 'mapstore':
            x = x.args[1]
        elif x.op == 'fresh':
            x = x.args[0]
        else:
            return x.op == 'dict' or x.op == 'call' and x.args[0].lstrip('!').rsplit('.', 1)[-1] in ('dict', 'defaultdict', 'OrderedDict')


def seqlen(x):
    """length of a sequence term"""
    def f(x):
        x = strip_fresh(x)
        if x.op in ('list', 'tuple') and not any(a.op == 'star' for a in x.args):
            return num(len(x.args))
        if x.op == 'dict':
            return num(len(x.args))
        if x.op == 'str':
            return num(len(x.args[0]))
        if x.op == 'map':
            return x.args[0]
        if x.op == 'concat':
            r = ZERO
            for a in x.args:
                r = add(r, seqlen(a))
            return r
        if x.op == 'rep':
            return mul(seqlen(x.args[0]), x.args[1])
        if x.op == 'arange':
            lo, hi, st = x.args
            if st is ONE:
                return sub(hi, lo)
            if st.op == 'num' and st.args[0] == -1:
                return sub(lo, hi)
            return mk('call', 'rangelen', (lo, hi, st), ())
        if x.op == 'enum':
            return seqlen(x.args[0])
        if x.op in ('rev', 'sorted'):
            return seqlen(x.args[0])
        if x.op == 'zip':
            ls = []
            for a in x.args:
                l = seqlen(a)
                if l not in ls:
                    ls.append(l)
            if len(ls) == 1:
                return ls[0]
            ls.sort()
            return mk('call', 'zlen', tuple(ls), ())
        if x.op == 'call' and x.args[0] in ('keys', 'values', 'items'):
            return seqlen(x.args[1][0])
        if x.op == 'call' and x.args[0] == 'del' and x.args[1][0].op in ('arange', 'list', 'map'):
            return sub(seqlen(x.args[1][0]), ONE)
        if x.op in ('store', 'mapstore') and dictlike(x):
            return mk('call', 'len', (x,), ())
        if x.op == 'store' and x.args[1] is not FULL:
            return seqlen(x.args[0])
        if x.op == 'mapstore':
            return seqlen(x.args[1])
        if x.op == 'call' and x.args[0] in ('zeros', 'ones') and x.args[1]:
            sh = x.args[1][0]
            if sh.op == 'tuple':
                return sh.args[0] if sh.args else ZERO
            return sh
        if x.op == 'idx' and x.args[1].op == 'slice':
            lo, hi, st = x.args[1].args
            if st is NONE:
                def nonneg(v):
                    return not (v.op == 'num' and v.args[0] < 0 or v.op == 'poly' and all(c < 0 for m, c in v.args))
                if (lo is NONE or nonneg(lo)) and (hi is NONE or nonneg(hi)):
                    base = seqlen(x.args[0]) if hi is NONE else hi
                    return sub(base, ZERO if lo is NONE else lo)
                if (lo is NONE or nonneg(lo)) and hi.op == 'num':
                    return sub(add(seqlen(x.args[0]), hi), ZERO if lo is NONE else lo)
        return mk('call', 'len', (x,), ())
    return apply(f, x)


def idx(x, i):
    """element / slice selection"""
    def f(x, i):
        fr = x.op == 'fresh'
        x = strip_fresh(x)
        if i.op == 'tuple' and len(i.args) == 1 and x.op not in ('dict',):
            i = i.args[0]
        while i.op == 'tuple' and len(i.args) > 1 and i.args[-1] is FULL and x.op != 'dict':
            i = mk('tuple', *i.args[:-1]) if len(i.args) > 2 else i.args[0]
        if i.op == 'slice' and i is FULL:
            return x if not fr else mk('fresh', x)
        if i.op == 'slice' and i.args[0] is NONE and i.args[1] is NONE and i.args[2].op == 'num' and i.args[2].args[0] == -1 \
                and x.op not in ('list', 'tuple', 'str'):
            return x.args[0] if x.op == 'rev' else mk('rev', x)
        if x.op in ('list', 'tuple') and i.op in ('num', 'bool') and not any(a.op == 'star' for a in x.args):
            k = int(i.args[0])
            if -len(x.args) <= k < len(x.args):
                return x.args[k]
            return mk('idx', x, i)
        if x.op in ('list', 'tuple') and i.op == 'slice' and all(a is NONE or a.op == 'num' for a in i.args) and \
                not any(a.op == 'star' for a in x.args):
            s = slice(*[None if a is NONE else int(a.args[0]) for a in i.args])
            return mk(x.op, *x.args[s])
        if x.op == 'str' and i.op == 'num':
            k = int(i.args[0])
            if -len(x.args[0]) <= k < len(x.args[0]):
                return string(x.args[0][k])
        if x.op == 'dict':
            for k, v in x.args:
                if k is i:
                    return v
            return mk('idx', x, i)
        if x.op == 'map' and i.op not in ('slice', 'tuple'):
            n, body = x.args
            if i.op == 'num' and i.args[0] < 0:
                i = add(n, i)
            return inst_body(x, i)
        if x.op == 'enum' and i.op not in ('slice', 'tuple'):
            return mk('tuple', add(i, x.args[1]), idx(x.args[0], i))
        if x.op == 'zip' and i.op not in ('slice', 'tuple'):
            return lift('tuple', *[idx(a, i) for a in x.args])
        if x.op == 'arange' and i.op not in ('slice', 'tuple'):
            lo, hi, st = x.args
            if i.op == 'num' and i.args[0] < 0:
                return add(lo, mul(st, add(seqlen(x), i)))
            return add(lo, mul(st, i))
        if x.op == 'rev' and i.op not in ('slice', 'tuple'):
            return idx(x.args[0], sub(sub(seqlen(x.args[0]), ONE), i))
        if x.op == 'call' and x.args[0] == 'items' and i.op not in ('slice', 'tuple'):
            d = x.args[1][0]
            k = mk('call', 'ithkey', (d, i), ())
            return mk('tuple', k, idx(d, k))
        if x.op == 'call' and x.args[0] == 'keys' and i.op not in ('slice', 'tuple'):
            return mk('call', 'ithkey', (x.args[1][0], i), ())
        if x.op == 'call' and x.args[0] == 'values' and i.op not in ('slice', 'tuple'):
            d = x.args[1][0]
            return idx(d, mk('call', 'ithkey', (d, i), ()))
        if x.op == 'store':
            b, j, v = x.args
            if j is i:
                return v
            if j is FULL:
                # broadcast full overwrite
                if v.op == 'num':
                    return v
            if disjoint(i, j):
                return idx(b, i)
            return mk('idx', x, i)
        if x.op == 'concat' and i.op == 'num' and i.args[0] >= 0:
            k = int(i.args[0])
            for a in x.args:
                if a.op in ('list', 'tuple'):
                    if k < len(a.args):
                        return a.args[k]
                    k -= len(a.args)
                else:
                    break
        if x.op == 'concat' and i.op == 'num' and i.args[0] == -1 and x.args[-1].op in ('list', 'tuple'):
            return x.args[-1].args[-1]
        if x.op == 'call' and x.args[0] == 'shape' and i is ZERO:
            return seqlen(x.args[1][0])
        if x.op == 'attr' and x.args[1] == 'shape' and i is ZERO:
            return seqlen(x.args[0])
        # x[a:][i] -> x[a+i]
        if x.op == 'idx' and x.args[1].op == 'slice' and i.op not in ('slice', 'tuple'):
            lo, hi, st = x.args[1].args
            if st is NONE and not (lo.op == 'num' and lo.args[0] < 0) and not (i.op == 'num' and i.args[0] < 0) \
                    and not _neglead(lo):
                return idx(x.args[0], i if lo is NONE else add(lo, i))
        if x.op == 'idx' and i.op not in ('slice', 'tuple') and x.args[1].op not in ('slice', 'tuple') and x.args[0].op in ('attr',) and False:
            return mk('idx', x.args[0], mk('tuple', x.args[1], i))
        # x[i, :] == x[i]
        if i.op == 'tuple':
            a = list(i.args)
            while len(a) > 1 and a[-1] is FULL:
                a.pop()
            if len(a) < len(i.args):
                return idx(x, a[0] if len(a) == 1 else mk('tuple', *a))
            # x[i, j] == x[i][j] for integer first index
            if a and a[0].op not in ('slice', 'list', 'tuple') and len(a) >= 2:
                return idx(idx(x, a[0]), a[1] if len(a) == 2 else mk('tuple', *a[1:]))
        if x.op == 'call' and x.args[0] in ('zeros', 'ones') and i.op not in ('slice', 'tuple'):
            return ZERO if x.args[0] == 'zeros' else ONE
        if x.op == 'num' and False:
            return x
        return mk('idx', x, i)
    return apply(f, x, i)


def _neglead(v):
    return v.op == 'poly' and all(c < 0 for m, c in v.args)


def disjoint(i, j):
    if i.op in ('num', 'str', 'bool') and j.op in ('num', 'str', 'bool'):
        if i.op == 'num' and j.op == 'num' and (i.args[0] < 0) != (j.args[0] < 0):
            return False
        return i is not j
    if i.op not in ('slice', 'tuple') and j.op not in ('slice', 'tuple'):
        d = sub(i, j)
        if d.op == 'num' and d.args[0] != 0:
            return True
    if i.op == 'slice' and j.op == 'slice' and i.args[2] is NONE and j.args[2] is NONE:
        for a, b in ((i, j), (j, i)):
            hi, lo = a.args[1], b.args[0]
            if hi is not NONE and lo is not NONE and hi is lo:
                return True
            if hi is not NONE and lo is not NONE:
                d = sub(lo, hi)
                if d.op == 'num' and d.args[0] >= 0 and not (hi.op == 'num' and hi.args[0] < 0):
                    return True
                # lo - hi = positive combination of dims
                if d.op == 'poly' and all(c > 0 for m, c in d.args) and is_int(d):
                    return True
    return False


def store(base, i, v):
    def f(base, i, v):
        if i.op == 'tuple':
            a = list(i.args)
            while len(a) > 1 and a[-1] is FULL:
                a.pop()
            i = a[0] if len(a) == 1 else mk('tuple', *a)
        if i is FULL:
            return filled(base, v)
        if base.op == 'list' and i.op == 'num' and not any(a.op == 'star' for a in base.args):
            k = int(i.args[0])
            if -len(base.args) <= k < len(base.args):
                a = list(base.args)
                a[k] = v
                return mk('list', *a)
        if base.op == 'dict':
            items = [kv for kv in base.args]
            for n, (k, _) in enumerate(items):
                if k is i:
                    items[n] = (k, v)
                    return mk('dict', *items)
            if is_const(i) and all(is_const(k) for k, _ in items):
                return mk('dict', *(items + [(i, v)]))
        if idx(base, i) is v:
            return base
        if base.op == 'store':
            b, j, w = base.args
            if j is i:
                return store(b, i, v)
            if disjoint(i, j) and i.key < j.key:
                return mk('store', store(b, i, v), j, w)
        return mk('store', base, i, v)
    return apply(f, base, i, v)


def filled(base, v):
    v = strip_fresh(v)
    if v.op == 'call' and v.args[0] in ('zeros', 'zeros_like'):
        return ZERO
    if v.op == 'call' and v.args[0] in ('ones', 'ones_like'):
        return ONE
    return v


# binders -------------------------------------------------------------

def bv(h):
    return mk('bv', h)


def bind(ordvar, *bodies):
    """abstract ordvar in bodies; returns (bvterm, new bodies)"""
    h = max([height(b) for b in bodies] + [0]) + 1
    b = bv(h)
    return b, [subst(x, {ordvar: b}) for x in bodies]


def bvof(t):
    """the bound variable of a binder term"""
    return bv(height(t))


def inst_body(t, i):
    """instantiate the body of a map binder at index i"""
    body = t.args[-1]
    return subst(body, {bvof(t): i})


def mkbinder(op, ordvar, outer, inner, cvs=()):
    """outer: terms outside the binder scope (tuple); inner: bodies in scope"""
    if op != 'lam':
        for j, x in enumerate(outer):
            if isinstance(x, T) and x.op == 'ite':
                return apply(lambda y: mkbinder(op, ordvar, outer[:j] + (y,) + outer[j + 1:], inner, cvs), x)
        scope = set(cvs) | {ordvar}
        for b in inner:
            if b.op != 'ite':
                continue
            for a in sorted(support(b), key=akey):
                if not contains(a, lambda x: x in scope):
                    return join(a, mkbinder(op, ordvar, outer, tuple(constrain(x, a, True) for x in inner), cvs),
                                mkbinder(op, ordvar, outer, tuple(constrain(x, a, False) for x in inner), cvs))
    h = max([height(b) for b in inner] + [0]) + 1
    # outer heights must be strictly below as well to keep bvof() correct
    H = max([height(b) for b in outer if isinstance(b, T)] + [h - 1]) + 1
    m = {ordvar: bv(H)}
    for j, c in enumerate(cvs):
        m[c] = mk('cvk', H, j)
    memo = {}
    inner2 = [subst(x, m, memo) for x in inner]
    return mk(op, *(tuple(outer) + tuple(inner2)))


def bfmap(o, n, cond, body):
    """the list of body for the indices below n that satisfy cond"""
    if cond is TRUE:
        return bmap(o, n, body)
    if cond is FALSE:
        return mk('list')
    return mkbinder('fmap', o, (n,), (cond, body))


def bany(o, n, B):
    """does some index below n satisfy B (a boolean diagram)"""
    if n.op == 'ite':
        return apply(lambda n: bany(o, n, B), n)
    if B is TRUE:
        return truth(n)
    if not mentions(B, o):
        return and_(B, truth(n))
    for a in sorted(support(B), key=akey):
        if not mentions(a, o):
            return join(a, bany(o, n, cofactor(B, a, True)) if cofactor(B, a, True) is not FALSE else FALSE,
                        bany(o, n, cofactor(B, a, False)) if cofactor(B, a, False) is not FALSE else FALSE)
    return atomvar(mkbinder('any', o, (n,), (B,)))


def bmapstore(o, n, vi, c, i, v):
    """vi with v stored at i for the indices below n that satisfy c"""
    if c is FALSE:
        return vi
    if c is TRUE and i is o and not any(x.op == 'ite' for x in (n, vi)) and seqlen(vi) is n:
        return bmap(o, n, v)
    if i is o and c.op == 'ite' and not any(x.op == 'ite' for x in (n, vi)) and seqlen(vi) is n:
        return bmap(o, n, ite(c, v, idx(vi, o)))
    return mkbinder('mapstore', o, (n, vi), (c, i, v))


def bmap(ordvar, n, body):
    """list of body for index in 0..n-1"""
    if n.op == 'ite':
        return apply(lambda n: bmap(ordvar, n, body), n)
    b = body
    # hoist loop-invariant conditions
    if b.op == 'ite':
        for a in sorted(support(b), key=akey):
            if not mentions(a, ordvar):
                return join(a, bmap(ordvar, n, cofactor(b, a, True)), bmap(ordvar, n, cofactor(b, a, False)))
    # eta: map i<len(x). x[i]  ==> fresh x
    if b.op == 'idx' and b.args[1] is ordvar and not mentions(b.args[0], ordvar):
        if seqlen(b.args[0]) is n:
            return mk('fresh', b.args[0])
    if n.op == 'num' and 0 <= n.args[0] <= 8:
        return mk('list', *[subst(b, {ordvar: num(k)}) for k in range(int(n.args[0]))])
    if b is ordvar:
        return mk('arange', ZERO, n, ONE)
    return mkbinder('map', ordvar, (n,), (b,))


def bsum(ordvar, n, body):
    """sum of body for index in 0..n-1"""
    if n.op == 'ite':
        return apply(lambda n: bsum(ordvar, n, body), n)
    if body.op == 'ite':
        for a in sorted(support(body), key=akey):
            if not mentions(a, ordvar):
                return join(a, bsum(ordvar, n, cofactor(body, a, True)), bsum(ordvar, n, cofactor(body, a, False)))
        return mkbinder('sum', ordvar, (n,), (body,))
    r = ZERO
    for m, c in pd(strip_fresh(body)).items():
        outm, inm = [], []
        for a, e in m:
            (inm if mentions(a, ordvar) else outm).append((a, e))
        k = pt({tuple(outm): c}) if outm else mk('num', c)
        if inm:
            inner = pt({tuple(inm): Fraction(1)})
            if inner.op == 'idx' and inner.args[1] is ordvar and not mentions(inner.args[0], ordvar) and seqlen(inner.args[0]) is n:
                s = mk('call', 'sum', (inner.args[0],), ())
            else:
                s = mkbinder('sum', ordvar, (n,), (inner,))
        else:
            s = n
        r = add(r, mul(k, s))
    return r


_REBUILD = {
    'poly': lambda *items: _rebuild_poly(items),
    'exp': exp_,
    'pow': pow_,
    'ite': lambda a, hi, lo: _rebuild_ite(a, hi, lo),
    'idx': idx,
    'store': store,
    'concat': lambda *xs: _rebuild_concat(xs),
    'floordiv': floordiv,
    'mod': mod,
    'slice': slc,
    'fresh': lambda x: fresh(x),
    'call': lambda f, a, k: rebuild_call(f, a, k),
}


def mask(t):
    """an elementwise comparison of arrays as one value: the decision inside is taken per element, not for the array"""
    if t.op == 'ite' and all(l is TRUE or l is FALSE for l in leafset(t)):
        return mk('mask', t)
    return t


_REBUILD['mask'] = mask
MASKED = {'where', 'sum', 'mean', 'average', 'nonzero', 'flatnonzero', 'argmax', 'argmin', 'count_nonzero', 'cumsum', 'argwhere'}


def del_at(v, i):
    """the sequence v without position i"""
    if i.op == 'num':
        if v.op == 'arange' and all(a.op == 'num' for a in v.args) and v.args[2] is ONE and \
                v.args[1].args[0] - v.args[0].args[0] <= 4:
            v = mk('list', *[num(k) for k in range(int(v.args[0].args[0]), int(v.args[1].args[0]))])
        if v.op == 'list' and not any(a.op in ('star', 'ite') for a in v.args) and \
                -len(v.args) <= i.args[0] < len(v.args):
            l = list(v.args)
            del l[int(i.args[0])]
            return mk('list', *l)
    return lift('call', 'del', (v, i), ())


def rebuild_call(f, a, k):
    if f == 'zlen':
        a = tuple(sorted(set(a)))
        if len(a) == 1:
            return a[0]
    if f == 'del' and len(a) == 2 and not k:
        return del_at(*a)
    if f in MASKED and len(a) == 1 and not k:
        a = (mask(a[0]),)
    if f == 'len' and len(a) == 1 and not k:
        return seqlen(a[0])
    if f == 'sum' and len(a) == 1 and not k:
        return sum_of(a[0])
    if f == 'abs' and len(a) == 1 and not k:
        return abs_of(a[0])
    return lift('call', f, a, k)


def abs_of(x):
    def f(x):
        x = strip_fresh(x)
        if x.op == 'num':
            return num(abs(x.args[0]))
        c, m = _content(x)
        if x.op == 'poly' and c != 1:
            return mul(num(abs(c)), mk('call', 'abs', (m,), ()))
        return mk('call', 'abs', (x,), ())
    return apply(f, x)


def sum_of(x):
    """sum over a sequence term"""
    def f(x):
        x = strip_fresh(x)
        if x.op in ('list', 'tuple') and not any(a.op == 'star' for a in x.args):
            r = ZERO
            for a in x.args:
                r = add(r, a)
            return r
        if x.op == 'map':
            o = mk('ord', '$s%d' % height(x))
            return bsum(o, x.args[0], inst_body(x, o))
        if x.op == 'fmap':
            o = mk('ord', '$s%d' % height(x))
            n, c, b = x.args
            v = bvof(x)
            return bsum(o, n, ite(subst(c, {v: o}), subst(b, {v: o}), ZERO))
        if x.op == 'concat':
            r = ZERO
            for a in x.args:
                r = add(r, sum_of(a))
            return r
        if x.op == 'poly' and not any(m == () for m, c in x.args):
            r = ZERO
            for m, c in x.args:
                r = add(r, mul(mk('num', c), mk('call', 'sum', (pt({m: Fraction(1)}),), ())))
            return r
        return mk('call', 'sum', (x,), ())
    return apply(f, x)


def fresh(x):
    def f(x):
        if x.op in ('attr', 'idx', 'sym', 'after', 'store', 'mapstore'):
            return mk('fresh', x)
        if x.op == 'call' and x.args[0] not in ('zeros', 'ones', 'dot', 'outer'):
            return mk('fresh', x)
        return x
    return apply(f, x)


def _rebuild_concat(xs):
    r = mk('list')
    first = True
    for x in xs:
        if first:
            r = x
            first = False
        else:
            r = add(r, x) if r.op in SEQ_OPS or x.op in SEQ_OPS else mk('concat', r, x)
    return r


def _rebuild_poly(items):
    r = ZERO
    for m, c in items:
        t = mk('num', c)
        for a, e in m:
            t = mul(t, pow_(a, mk('num', e)))
        r = add(r, t)
    return r


def _rebuild_ite(a, hi, lo):
    # a may have become a constant / different atom
    if a.op == 'ite' or a is TRUE or a is FALSE:
        return ite(a, hi, lo)
    c = re_atom(a)
    return ite(c, hi, lo)


def re_atom(a):
    op = a.op
    if op == 'eq0':
        return apply(eq0, a.args[0])
    if op == 'lt0':
        return apply(lt0, a.args[0])
    if op == 'eq':
        return cmp_('==', a.args[0], a.args[1])
    if op == 'isnone':
        return cmp_('is', a.args[0], NONE)
    if op == 'in':
        return cmp_('in', a.args[0], a.args[1])
    if op == 'truth':
        return truth(a.args[0])
    return atomvar(a)


# rebuild of bare atoms under subst gives boolean diagrams; used inside ite only
for _n in ('eq0', 'lt0', 'eq', 'isnone', 'in', 'truth'):
    _REBUILD[_n] = (lambda op: (lambda *args: re_atom(mk(op, *args)) if not any(
        isinstance(x, T) and x.op == 'ite' for x in args) else apply(lambda *l: re_atom(mk(op, *l)), *args)))(_n)


# --------------------------------------------------------------------------
# equality of canonical terms, with rational-function fallback

def denominators(t):
    out = {}
    for m, c in pd(t).items():
        for a, e in m:
            if e < 0:
                if a not in out or out[a] > e:
                    out[a] = e
    return out


def rational_zero(t):
    """is the rational expression t identically zero (after clearing denominators)?"""
    for _ in range(6):
        if t is ZERO:
            return True
        if t.op not in ('poly',):
            return t is ZERO
        dens = denominators(t)
        polyd = {a: e for a, e in dens.items() if a.op == 'poly'}
        if not dens:
            return False
        if not polyd and not dens:
            return False
        r = {}
        for m, c in pd(t).items():
            mm = dict(m)
            extra = ONE
            for a, e in dens.items():
                cur = mm.pop(a, Fraction(0))
                k = cur - e
                if k.denominator != 1:
                    mm[a] = k
                else:
                    if k > 0:
                        extra = mul(extra, pow_(a, num(k))) if k <= 4 else mul(extra, pt({((a, k),): Fraction(1)}))
            base = pt({tuple(sorted(mm.items(), key=lambda ae: (ae[0].key, ae[1]))): c}) if mm else mk('num', c)
            p = mul(base, extra)
            for m2, c2 in pd(p).items():
                r[m2] = r.get(m2, 0) + c2
        t = pt({m: c for m, c in r.items() if c != 0})
    return t is ZERO


def same(a, b):
    if a is b:
        return True
    a = strip_fresh(a)
    b = strip_fresh(b)
    if a is b:
        return True
    if a.op in ('poly', 'num', 'exp') or b.op in ('poly', 'num', 'exp'):
        try:
            d = apply(lambda x, y: sub(x, y), a, b)
            if all(rational_zero(l) for l in leafset(d)):
                return True
        except TooBig:
            pass
    return False


# --------------------------------------------------------------------------
# printing

def _shn(x):
    if x.denominator == 1:
        return str(x.numerator)
    f = float(x)
    return repr(f) if Fraction(repr(f)) == x else str(x)


def show(t, depth=0):
    if depth > 14:
        return '...'
    d = depth + 1
    op = t.op
    a = t.args
    if op == 'num':
        return _shn(a[0])
    if op == 'box':
        return '%s#%s' % ('/'.join(sorted(set(show(x, 13)[:20] for x in (a[0].args[1:] if a[0].op == 'ite' else a)
                                              if x.op in ('num', 'attr', 'sym')))), t.key[:4])
    if op == 'str':
        return repr(a[0])
    if op == 'bool':
        return str(a[0])
    if op == 'none':
        return 'None'
    if op in ('sym', 'const'):
        return a[0]
    if op == 'glob':
        return a[0].rsplit('.', 1)[-1]
    if op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1] if isinstance(a[1], str) else show(a[1], d))
    if op == 'idx':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'slice':
        return '%s:%s%s' % tuple(['' if x is NONE else (':' if n == 2 else '') + show(x, d) for n, x in enumerate(a)])
    if op == 'poly':
        parts = []
        for m, c in a:
            s = '*'.join(('%s' if e == 1 else '%s^' + _shn(e)) % (
                ('(%s)' if at.op in ('poly', 'ite') else '%s') % show(at, d)) for at, e in m)
            if not s:
                s = _shn(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = _shn(c) + '*' + s
            parts.append(s)
        return ' + '.join(parts).replace('+ -', '- ')
    if op == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return 'not(%s)' % show(a[0], d)
        return '(%s ? %s : %s)' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if op == 'eq0':
        return '%s == 0' % show(a[0], d)
    if op == 'lt0':
        return '%s < 0' % show(a[0], d)
    if op == 'eq':
        return '%s == %s' % (show(a[0], d), show(a[1], d))
    if op == 'isnone':
        return '%s is None' % show(a[0], d)
    if op == 'truth':
        return 'bool(%s)' % show(a[0], d)
    if op == 'in':
        return '%s in %s' % (show(a[0], d), show(a[1], d))
    if op == 'list':
        return '[%s]' % ', '.join(show(x, d) for x in a)
    if op == 'tuple':
        return '(%s)' % ', '.join(show(x, d) for x in a)
    if op == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (show(k, d), show(v, d)) for k, v in a)
    if op == 'bv':
        return '$%d' % a[0]
    if op == 'ord':
        return '#%s' % a[0]
    if op == 'map':
        return '[%s | $%d < %s]' % (show(a[1], d), height(t), show(a[0], d))
    if op == 'fmap':
        return '[%s | $%d < %s if %s]' % (show(a[2], d), height(t), show(a[0], d), show(a[1], d))
    if op == 'sum':
        return 'sum($%d < %s: %s)' % (height(t), show(a[0], d), show(a[1], d))
    if op == 'call':
        parts = [show(x, d) for x in a[1]] + ['%s=%s' % (k, show(v, d)) for k, v in a[2]]
        return '%s(%s)' % (a[0], ', '.join(parts))
    if op == 'fresh':
        return 'copy(%s)' % show(a[0], d)
    if op == 'after':
        return '%s@%s' % (show(a[1], d), a[0])
    if op == 'store':
        return '%s{%s:=%s}' % (show(a[0], d), show(a[1], d), show(a[2], d))

    def g(x):
        if isinstance(x, T):
            return show(x, d)
        if isinstance(x, tuple):
            return '(%s)' % ', '.join(g(y) for y in x)
        return str(x)
    return '%s<%s>' % (op, ', '.join(g(x) for x in a))

# a named case distinction keeps its decision diagram inside
_REBUILD['box'] = lambda v: mk('box', v) if v.op == 'ite' else v

"""Comparison of two value-numbered summaries: the reference (spec) and the code.

Every difference is classified
   None          equal
   Diff('def')   definite: the two normal forms differ at an aligned position made only of
                 understood operators, on a guard region that is arithmetically consistent
   Diff('unk')   the normal forms differ but the difference is not established
Only definite differences are ever reported.
"""
from fractions import Fraction
from .terms import *
from . import terms as TM
from .unroll import instance

BIND = TM.BINDERS
UNROLL = ('fold', 'mapstore', 'fmap', 'any', 'sum', 'prod', 'map')
UNKNOWN_OPS = {'cv', 'cvat', 'undef', 'lamfx', 'clo', 'obj', 'exc', 'guess', 'cont'}

FAMILIES = [
    {'argmax', 'argmin'}, {'max', 'min', 'maximum', 'minimum', 'mean', 'sum', 'std', 'var', 'prod', 'median'},
    {'floor', 'ceil', 'round'}, {'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'exp', 'log', 'log2', 'log10', 'sqrt', 'abs', 'sign',
                                 'arctan', 'arcsin', 'arccos', 'arctanh', 'expm1', 'log1p'},
    {'any', 'all'}, {'zeros', 'ones'}, {'argsort', 'sorted', 'reversed', 'rev'}, {'hstack', 'vstack'}, {'union', 'intersection', 'difference'},
    {'eye', 'zeros'}, {'triu', 'tril'}, {'append', 'insert'}, {'keys', 'values', 'items'},
]
FAM = {}
for _f in FAMILIES:
    for _n in _f:
        FAM.setdefault(_n, set()).update(_f)


class Diff(object):
    __slots__ = ('kind', 'a', 'b', 'why', 'lits')

    def __init__(self, kind, a, b, why='', lits=()):
        self.kind, self.a, self.b, self.why, self.lits = kind, a, b, why, lits

    def text(self):
        s = 'expected %s, found %s' % (clip(show(self.a)), clip(show(self.b)))
        if self.why:
            s += ' [%s]' % self.why
        if self.lits:
            s += ' when ' + clip(' and '.join(('%s' if v else 'not (%s)') % show(a) for a, v in self.lits))
        return s


def clip(s, n=240):
    return s if len(s) <= n else s[:n] + '...'


# ---------------------------------------------------------------- linear feasibility of a guard region
def linear(p):
    d = {}
    for m, c in pd(p).items():
        d[m] = d.get(m, 0) + c
    return d


def sizes(lits):
    """a container that is also measured is true exactly if it is not empty"""
    out = ()
    for a, v in lits:
        if a.op == 'truth':
            n = [x for b, w in lits if b.op in ('lt0', 'eq0') for m in linear(b.args[0]) for x, e in m
                 if x.op == 'call' and x.args[0] == 'len' and mentions(x, a.args[0])]
            if n and a.args[0] in n[0].args[1:] or n and isinstance(n[0].args[1], tuple) and n[0].args[1][:1] == (a.args[0],):
                out += ((mk('lt0', sub(n[0], num(1))), not v),)
    return out


def feasible(lits, integral=True):
    """rational Fourier-Motzkin on the arithmetic literals.  integral=True strengthens strict bounds of
    integer-coefficient forms, so a region living strictly between integers counts as empty."""
    cons = []   # (dict, strict)  meaning  form < 0 / <= 0
    eqs = []

    def addc(d, strict):
        if integral and strict and all(c.denominator == 1 for c in d.values()):
            d = dict(d)
            d[()] = d.get((), Fraction(0)) + 1
            strict = False
        cons.append((d, strict))
    nes = []
    for a, v in lits:
        if a.op == 'lt0':
            d = linear(a.args[0])
            if v:
                addc(d, True)
            else:
                addc({m: -c for m, c in d.items()}, False)
        elif a.op == 'eq0':
            d = linear(a.args[0])
            if v:
                eqs.append(d)
            else:
                nes.append(d)
    # lengths are nonnegative
    seen = set()
    for d, _ in list(cons) + [(e, 0) for e in eqs + nes]:
        for m in d:
            if len(m) == 1 and m[0][1] == 1 and m not in seen and \
                    (m[0][0].op in ('ord', 'bv', 'count') or m[0][0].op == 'call' and m[0][0].args[0] == 'len'):
                seen.add(m)
                cons.append(({m: Fraction(-1)}, False))
    for e in eqs:
        cons.append((e, False))
        cons.append(({m: -c for m, c in e.items()}, False))
    ok = _fm(cons)
    if not ok:
        return False
    again = True
    while again:
        again = False
        for ne in list(nes):
            # p != 0 inconsistent if p<0 and p>0 both impossible
            p = dict(ne)
            n_ = {m: -c for m, c in ne.items()}
            strict = True
            if integral and all(c.denominator == 1 for c in p.values()):
                p[()] = p.get((), Fraction(0)) + 1
                n_[()] = n_.get((), Fraction(0)) + 1
                strict = False
            below, above = _fm(cons + [(p, strict)]), _fm(cons + [(n_, strict)])
            if not below and not above:
                return False
            if not (below and above):
                nes.remove(ne)
                cons.append((p if below else n_, strict))
                again = True
    return True


def _fm(cons):
    cons = [(dict(d), s) for d, s in cons]
    if len(cons) > 24:
        return True
    while True:
        vs = sorted(set(m for d, _ in cons for m in d if m != () and d[m] != 0), key=lambda m: tuple(x[0].key for x in m))
        if not vs:
            for d, s in cons:
                c = d.get((), Fraction(0))
                if c > 0 or (s and c == 0):
                    return False
            return True
        best = min(vs, key=lambda v: sum(1 for d, _ in cons if d.get(v, 0) > 0) * sum(1 for d, _ in cons if d.get(v, 0) < 0))
        pos = [(d, s) for d, s in cons if d.get(best, 0) > 0]
        neg_ = [(d, s) for d, s in cons if d.get(best, 0) < 0]
        rest = [(d, s) for d, s in cons if d.get(best, 0) == 0]
        for dp, sp in pos:
            for dn, sn in neg_:
                k1, k2 = -dn[best], dp[best]
                d = {}
                for m in set(dp) | set(dn):
                    if m == best:
                        continue
                    c = dp.get(m, 0) * k1 + dn.get(m, 0) * k2
                    if c != 0:
                        d[m] = Fraction(c)
                rest.append((d, sp or sn))
        if len(rest) > 200:
            return True
        cons = rest


def equalities(lits):
    """substitution solved from equality literals (incl. p>=0 & -p>=0 pairs)"""
    m = {}
    eqs = [a.args[0] for a, v in lits if a.op == 'eq0' and v]
    ge = [a.args[0] for a, v in lits if a.op == 'lt0' and not v]
    for i, p in enumerate(ge):
        for q in ge[i + 1:]:
            if add(p, q) is ZERO:
                eqs.append(p)
    for a, v in lits:
        if a.op == 'eq' and v:
            x, y = a.args
            if is_const(y):
                m[x] = y
            elif is_const(x):
                m[y] = x
            else:
                m[y] = x
        if a.op == 'isnone' and v:
            m[a.args[0]] = NONE
    for p in eqs:
        for mono, c in pd(p).items():
            if len(mono) == 1 and mono[0][1] == 1:
                x = mono[0][0]
                rest = sub(p, mul(mk('num', c), x))
                if not contains(rest, lambda t: t is x):
                    m[x] = mul(mk('num', Fraction(-1) / c), rest)
                    break
    return m


class Comparer(object):
    def __init__(self, vocab, spec_names, strict_alias=False, ordered=False):
        self.vocab = vocab          # names that exist on today's tree
        self.spec_names = spec_names   # names used by the reference
        self.strict = strict_alias
        self.ordered = ordered
        self.nfresh = 0
        self.purity = None
        self.pairs = 0
        self.barememo = {}
        self.ordbound = {}
        self.constants = {}
        self.untouched = None

    # ------------------------------------------------------------ symbols
    def unknown(self, t):
        """a reason the term is not fully understood, or None"""
        for x in walk(t):
            op = x.op
            if op == 'sym':
                n = x.args[0]
                if isinstance(n, str) and n.startswith('?'):
                    return n
            elif op == 'attr':
                if x.args[1] not in self.vocab and x.args[1] not in self.spec_names:
                    return 'attribute ' + str(x.args[1])
            elif op == 'call':
                n = x.args[0].lstrip('!')
                s = n.rsplit('.', 1)[-1]
                if x.args[0] == 'abs':
                    continue
                if s not in self.spec_names and n not in self.spec_names:
                    return 'call ' + n
            elif op in UNKNOWN_OPS:
                return op
            elif op in BIND:
                return 'binder ' + op
        return None

    def calls(self, t):
        return [x for x in walk(t) if x.op == 'call']

    # ------------------------------------------------------------ terms
    def norm(self, t):
        return t if self.strict else self.bare(t)

    def bare(self, t):
        """without the copies: a copy has the value of the original"""
        t = strip_fresh(t)
        r = self.barememo.get(t)
        if r is None:
            fs = set(x for x in walk(t) if x.op == 'fresh')
            r = t
            n = 0
            while fs and n < 6:
                n += 1
                inner = [x for x in fs if not any(y is not x and y.op == 'fresh' for y in walk(x))]
                r = subst(r, dict((x, x.args[0]) for x in inner))
                fs = set(x for x in walk(r) if x.op == 'fresh')
            r = strip_fresh(r)
            self.barememo[t] = r
        return r

    def eq(self, a, b):
        if a is b:
            return True
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if self.strict:
            return False
        return same(a, b)

    def diff(self, a, b, care=TRUE, lits=(), depth=0):
        """compare value diagrams wherever care holds"""
        TM._tick()
        if self.eq(a, b):
            return None
        a, b = self.norm(a), self.norm(b)
        if a.op == 'ite' or b.op == 'ite' or care.op == 'ite':
            unk = None
            if care is not TRUE:
                try:
                    from .ev import restrict
                    a2, b2 = restrict(a, care), restrict(b, care)
                    if self.eq(a2, b2):
                        return None
                except TooBig:
                    pass
            n = 0
            sa, sb = support(a), support(b)
            for ls, la, lb in self.joint(a, b, care):
                n += 1
                if n > 300:
                    return unk or Diff('unk', a, b, 'too many cases')
                if self.eq(la, lb):
                    continue
                L = lits + tuple(ls)
                LB = L + self.bounds(L) + sizes(L)
                if not feasible(LB, False):
                    continue
                if nan_order(L):
                    unk = unk or Diff('unk', la, lb, 'order of a value that is not a number')
                    continue
                if not feasible(self.indexlits(LB), True):
                    continue
                if not feasible(LB, True):
                    unk = unk or Diff('unk', la, lb, 'differs only between integers')
                    continue
                d = self.leafdiff(la, lb, L, depth)
                if d is None:
                    continue
                if d.kind == 'def':
                    if not self.consistent(L):
                        continue
                    w = self.lits_ok(ls, sa, sb) or self.timing(L)
                    if w is None:
                        return Diff('def', d.a, d.b, d.why, d.lits or L)
                    d = Diff('unk', d.a, d.b, w)
                unk = unk or d
            return unk
        return self.leafdiff(a, b, lits, depth)

    def bounds(self, lits):
        """the indices of the loops being compared stay below their number of iterations"""
        if not self.ordbound:
            return ()
        return tuple((mk('lt0', sub(o, n)), True) for o, n in self.ordbound.items() if any(mentions(a, o) for a, v in lits))

    def indexlits(self, lits):
        """the literals on quantities that are whole numbers: loop indices and numbers of iterations"""
        whole = set(m for n in self.ordbound.values() for m in linear(n)) | {()}

        def ok(m):
            return m in whole or all(x.op in ('ord', 'count', 'bv') or x.op == 'call' and x.args[0] == 'len' for x, e in m)
        return tuple((a, v) for a, v in lits if a.op in ('lt0', 'eq0') and all(ok(m) for m in linear(a.args[0])))

    def consistent(self, lits):
        """False when the equalities among the literals make the others contradict each other"""
        if self.constants:
            # class constants have their values
            m = {}
            for a, v in lits:
                for x in walk(a):
                    if x.op == 'attr' and x.args[1] in self.constants:
                        m[x] = num(self.constants[x.args[1]])
            if m:
                try:
                    l2 = []
                    for a, v in lits:
                        c = subst(atomvar(a), m)
                        if c is (FALSE if v else TRUE):
                            return False
                        if c.op == 'ite' and c.args[1] is TRUE and c.args[2] is FALSE:
                            l2.append((c.args[0], v))
                        elif c.op == 'ite' and c.args[1] is FALSE and c.args[2] is TRUE:
                            l2.append((c.args[0], not v))
                    vals = {}
                    for a, v in l2:
                        if a.op == 'eq0' and v:
                            lin = dict(linear(a.args[0]))
                            k = lin.pop((), 0)
                            if vals.setdefault(tuple(sorted(lin.items(), key=str)), k) != k:
                                return False
                        if a.op == 'eq' and v and any(x.op == 'num' for x in a.args):
                            x, y = a.args if a.args[1].op == 'num' else a.args[::-1]
                            if vals.setdefault(x, y) is not y:
                                return False
                    if not feasible(l2, False):
                        return False
                except TooBig:
                    pass
        m = equalities(lits)
        if not m:
            return True
        try:
            seen = {}
            for a, v in lits:
                c = subst(atomvar(a), m)
                if c is (FALSE if v else TRUE):
                    if a.op in ('eq0', 'lt0', 'eq', 'isnone'):
                        continue     # one of the literals the substitution comes from
                    return False
                if c.op == 'ite' and c.args[1].op != 'ite' and c.args[2].op != 'ite':
                    x = v if c.args[1] is TRUE else not v
                    if seen.setdefault(c.args[0], x) != x:
                        return False
        except TooBig:
            pass
        return True

    def decide(self, a, b, care=TRUE):
        """diff, and where it stays open because of a loop, the same question for loops of a small length"""
        d = self.diff(a, b, care)
        if d is None or d.kind == 'def' or not any(x.op in UNROLL for t in (a, b, care) for x in walk(t)):
            return d
        for size in (2, 1, 3):
            try:
                a2, b2, c2 = instance((a, b, care), size)
                if c2 is FALSE or any(x.op in ('bv', 'cvk') and False for x in walk(a2)):
                    continue
                e = self.diff(a2, b2, c2)
            except (TooBig, RecursionError):
                continue
            if e is not None and e.kind == 'def':
                if any(x.op == 'first' or x.op == 'const' and x.args[0] == 'inf_iter' for t in (e.a, e.b) for x in walk(t)):
                    continue        # a search loop: not expanded
                return Diff('def', e.a, e.b, 'for loops of %d iterations %s' % (size, e.why), e.lits)
        return d

    def hasafter(self, t):
        return contains(t, lambda x: x.op == 'after')

    def timing(self, lits):
        """a region that needs one location to test differently before and after an event"""
        if self.ordered or not any(self.hasafter(a) for a, v in lits):
            return None
        seen = {}
        for a, v in lits:
            k = self.noafter(atomvar(a))
            if k in (TRUE, FALSE):
                continue
            if k.op == 'ite' and k.args[1] is FALSE and k.args[2] is TRUE:
                k, v = k.args[0], not v
            elif k.op == 'ite' and k.args[1] is TRUE and k.args[2] is FALSE:
                k = k.args[0]
            if seen.setdefault(k, v) != v:
                return 'the condition is read at a different point'
        return None

    def joint(self, a, b, care):
        stack = [((), a, b, care)]
        n = 0
        while stack:
            n += 1
            if n > 4000:
                raise TooBig()
            ls, x, y, c = stack.pop()
            if x is y or c is FALSE:
                continue
            if x.op != 'ite' and y.op != 'ite' and c.op != 'ite':
                if c is TRUE:
                    yield ls, x, y
                continue
            at = topatom((x, y, c))
            for v in (False, True):
                stack.append((ls + ((at, v),), constrain(x, at, v), constrain(y, at, v), constrain(c, at, v)))

    def lits_ok(self, ls, sa, sb):
        """None if the path condition is understood; otherwise why not"""
        ar = ('eq0', 'lt0')
        co = [a for a, v in ls if a in sb and a not in sa]
        so = [a for a, v in ls if a in sa and a not in sb]
        for a in co:
            for s in a.args:
                if isinstance(s, T):
                    w = self.unknown(s)
                    if w and not ((w.startswith(('binder', 'call ')) or w == 'cvat') and self.counterpart(a, so)):
                        return 'condition on ' + w
            if a.op not in ar and a.op not in ('eq', 'isnone', 'truth', 'in', 'isinst'):
                if not ((a.op in BIND or a.op == 'cvat') and self.counterpart(a, so)):
                    return 'condition ' + a.op
        for x in co:
            for y in so:
                if x.op in ar and y.op in ar:
                    continue
                if x.op == y.op and x.op in ('isnone', 'truth'):
                    continue
                if {x.op, y.op} & {'truth'} and {x.op, y.op} & set(ar) and sizes(((x, True), (y, True))):
                    continue
                X = set(t for t in x.args if isinstance(t, T) and not is_const(t))
                Y = set(t for t in y.args if isinstance(t, T) and not is_const(t))
                if X & Y and x.op != y.op:
                    return 'tests of different kinds on one subject'
                if any(mentions(q, t) or mentions(t, q) for t in X for q in Y) and x.op != y.op:
                    return 'tests of different kinds on one subject'
        return None

    def counterpart(self, a, so):
        """a condition of the code built like one of the reference that differs from it in a definite place"""
        def bind(t):
            return sorted(x.op for x in walk(t) if x.op in BIND)
        k = bind(a)
        for x in so:
            if (x.op == a.op or {x.op, a.op} <= {'eq0', 'lt0', 'truth'}) and bind(x) == k:
                d = self.struct(x, a, 8)
                if d is not None and d.kind == 'def':
                    return True
        return False

    def leafdiff(self, a, b, lits, depth):
        m = equalities(lits)
        if m:
            try:
                a2, b2 = subst(a, m), subst(b, m)
            except TooBig:
                return Diff('unk', a, b, 'size')
            if a2.op == 'ite' or b2.op == 'ite':
                if depth > 6:
                    return Diff('unk', a, b)
                return self.diff(a2, b2, TRUE, (), depth + 1)
            if self.eq(a2, b2):
                return None
            a, b = a2, b2
        if lits and (a.op not in ATOMIC or b.op not in ATOMIC):
            # conditions of the path, where they are repeated inside the two values
            try:
                a2, b2 = assume(a, lits), assume(b, lits)
            except TooBig:
                return Diff('unk', a, b, 'size')
            if a2 is not a or b2 is not b:
                if self.eq(a2, b2):
                    return Diff('unk', a, b, 'equal under the conditions of the path')
                if a2.op != 'ite' and b2.op != 'ite':
                    a, b = a2, b2
        for x, y in ((a, b), (b, a)):
            if x in (TRUE, FALSE) and y.op not in ('num', 'none') and any(c.op == 'truth' and c.args[0] is y and v is (x is TRUE) for c, v in lits):
                return Diff('unk', a, b, 'the same truth value')
        d = self.struct(a, b, depth)
        if d is not None and d.kind == 'def' and lits and self.unsolved(d, lits, m):
            return Diff('unk', d.a, d.b, 'equality of the path not used')
        return d

    def unsolved(self, d, lits, m):
        """the difference found is in the quantities of a nonlinear equality of the path that no variable was solved from"""
        for a, v in lits:
            if a.op == 'eq0' and v:
                p = subst(a.args[0], m) if m else a.args[0]
                if p.op != 'poly':
                    continue
                at = set(x for mono in pd(p) for x, e in mono)
                if all(len(mono) <= 1 and all(e == 1 for x, e in mono) for mono in pd(p)):
                    continue
                if all(mentions(d.a, x) or mentions(d.b, x) for x in at):
                    return True
        return False

    def struct(self, a, b, depth):
        d = self.struct1(a, b, depth)
        if d is not None and d.kind == 'def' and not self.ordered and (self.hasafter(a) or self.hasafter(b)) \
                and self.eq(self.noafter(a), self.noafter(b)):
            return Diff('unk', a, b, 'read at a different point')
        return d

    def struct1(self, a, b, depth):
        self.pairs += 1
        if self.eq(a, b):
            return None
        if depth > 40:
            return Diff('unk', a, b, 'depth')
        if a.op == 'ite' or b.op == 'ite':
            return self.diff(a, b, TRUE, (), depth + 1)
        if self.strict and ('fresh' in (a.op, b.op)) and a.op != b.op:
            x, y = strip_fresh(a), strip_fresh(b)
            if x is y:
                return Diff('def', a, b, 'copy vs. alias')
            return self.struct(x, y, depth + 1)
        if a.op == 'after' or b.op == 'after':
            sa, sb = self.noafter(a), self.noafter(b)
            if sa is sb:
                return Diff('def' if self.ordered else 'unk', a, b, 'read at a different point')
            if a.op == 'after' and b.op == 'after' and a.args[0] == b.args[0]:
                return self.struct(a.args[1], b.args[1], depth + 1)
            return self.struct(sa, sb, depth + 1)
        if a.op != b.op and {a.op, b.op} & {'idx', 'at'} and {a.op, b.op} & {'res', 'call'}:
            x = a if a.op in ('idx', 'at') else b
            y = b if x is a else a
            if opaque(x.args[0]) and opaque(y):
                return Diff('unk', a, b, 'entry of an object of unknown class')
        if any(x.op == 'sym' and x.args[0].startswith('?') for x in (a, b)):
            return Diff('unk', a, b, 'a variable that may be unset')
        # constants
        if is_const(a) and is_const(b):
            if a.op == 'num' and b.op == 'num':
                return Diff('def', a, b)
            return Diff('def', a, b)
        if is_fill(a, b) or is_fill(b, a):
            return Diff('unk', a, b, 'number against an array filled with it')
        arith = ('poly', 'num')
        if stringform(a) != stringform(b) and stringform(a) and stringform(b):
            return Diff('unk', a, b, 'string forms')
        if a.op in arith or b.op in arith:
            return self.polydiff(a, b, depth)
        if a.op == 'call' and a.args[0].lstrip('.') in REMOVERS and a.args[1] and (self.eq(a.args[1][0], b) or b.op in ('fmap', 'map')):
            return Diff('unk', a, b, 'element removed in another way')
        if a.op == b.op:
            if a.op in BIND:
                return self.binder(a, b, depth)
            if a.op == 'call':
                return self.calldiff(a, b, depth)
            if a.op == 'store':
                return self.storediff(a, b, depth)
            if a.op in ('concat',):
                return self.seqdiff(a, b, depth)
            if a.op == 'attr':
                if a.args[1] != b.args[1]:
                    if a.args[0] is b.args[0]:
                        w = self.unknown(b)
                        return Diff('unk' if w else 'def', a, b, w or '')
                    w = self.unknown(b)
                    return Diff('unk' if w else 'def', a, b, w or '')
                d = self.struct(a.args[0], b.args[0], depth + 1)
                return self.wrapdiff(d, a, b)
            if len(a.args) == len(b.args):
                return self.congr(a, b, depth)
            if a.op in ('list', 'tuple', 'str'):
                w = self.unknown(b)
                return Diff('unk' if w else 'def', a, b, w or '')
            return Diff('unk', a, b, 'shape')
        # different operators
        if a.op == 'store' and self.eq(chain(a)[1], b) and not self.unknown(b):
            return Diff('def', a, b, 'value not stored')
        if b.op == 'store' and self.eq(chain(b)[1], a) and all(not self.unknown(i) and not self.unknown(v) for i, v in chain(b)[0]):
            return Diff('def', a, b, 'additional store')
        if a.op == 'concat' and any(x.op == 'list' and x.args for x in a.args):
            rest = [x for x in a.args if not (x.op == 'list' and x.args)]
            if len(rest) == 1 and self.eq(rest[0], b) and not self.unknown(b):
                return Diff('def', a, b, 'element not appended')
        if b.op == 'concat' and any(x.op == 'list' and x.args for x in b.args):
            rest = [x for x in b.args if not (x.op == 'list' and x.args)]
            if len(rest) == 1 and self.eq(rest[0], a) and not any(self.unknown(x) for x in b.args):
                return Diff('def', a, b, 'additional element')
        if a.op in BIND and b.op in BIND:
            if {a.op, b.op} in ({'max', 'min'}, {'any', 'all'}):
                return Diff('def', a, b)
            return Diff('unk', a, b, 'different summarised loops')
        w = self.unknown(b)
        if w:
            # call swapped for another member of its family
            return Diff('unk', a, b, w)
        if self.spec_call_lost(a, b):
            if b is self.untouched:
                return Diff('def', a, b, 'not assigned on this path')
            return Diff('unk', a, b, 'call replaced by other code')
        if {a.op, b.op} & {'store'} and {a.op, b.op} & {'concat', 'map', 'fmap', 'flat', 'list', 'tuple', 'rep', 'mapstore'}:
            return Diff('unk', a, b, 'sequence forms')
        if a.op in ('concat', 'map', 'fmap', 'flat', 'list', 'tuple', 'rep') and b.op in ('concat', 'map', 'fmap', 'flat', 'list', 'tuple', 'rep'):
            if {a.op, b.op} == {'list', 'tuple'}:
                return Diff('unk', a, b, 'list/tuple')
            return Diff('unk', a, b, 'sequence forms')
        if 'sym' in (a.op, b.op) and any(x.op == 'sym' and x.args[0].startswith('?') for x in (a, b)):
            return Diff('unk', a, b)
        return Diff('def', a, b)

    def spec_call_lost(self, a, b):
        """the reference calls a program function that the code does not: possibly expanded inline"""
        bc = set(x.args[0] for x in self.calls(b))
        for x in self.calls(a):
            if x.args[0] not in bc and x.args[0].lstrip('!').startswith('.'):
                recv = x.args[1] if len(x.args) > 1 and isinstance(x.args[1], T) else None
                if isinstance(x.args[1], tuple) and x.args[1]:
                    recv = x.args[1][0]
                if recv is not None and mentions(b, recv):
                    if self.purity is not None:
                        rd = self.purity.may_read(x.args[0].lstrip('!').rsplit('.', 1)[-1])
                        if rd is not None and '*' not in rd and not any(y.op == 'attr' and y.args[1] in rd for y in walk(b)):
                            continue
                    return True
        return False

    def noafter(self, t):
        m = {}
        for x in walk(t):
            if x.op == 'after':
                y = x
                while y.op == 'after':
                    y = y.args[1]
                m[x] = y
        for _ in range(6):
            if not m:
                return t
            t = subst(t, m)
            m = {}
            for x in walk(t):
                if x.op == 'after':
                    y = x
                    while y.op == 'after':
                        y = y.args[1]
                    m[x] = y
        return t

    def wrapdiff(self, d, a, b):
        if d is None:
            return None
        return Diff(d.kind, d.a, d.b, d.why, d.lits)

    def congr(self, a, b, depth):
        unk = None
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                d = self.struct(x, y, depth + 1)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                d = None
                if len(x) != len(y):
                    d = Diff('unk', a, b, 'shape')
                else:
                    for p, q in zip(x, y):
                        if isinstance(p, T) and isinstance(q, T):
                            d = self.struct(p, q, depth + 1)
                        elif isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q) == 2 and p[0] == q[0]:
                            d = self.struct(p[1], q[1], depth + 1)
                        elif p != q:
                            d = Diff('unk', a, b, 'shape')
                        if d is not None and d.kind == 'def':
                            break
            else:
                d = None if x == y else Diff('def' if not self.unknown(b) else 'unk', a, b)
            if d is not None:
                if d.kind == 'def':
                    return d
                unk = unk or d
        if unk is None and a.op == b.op and len(a.args) == len(b.args):
            return None
        return unk or Diff('unk', a, b)

    def calldiff(self, a, b, depth):
        na, nb = a.args[0], b.args[0]
        if na != nb:
            sa, sb = na.lstrip('!').rsplit('.', 1)[-1], nb.lstrip('!').rsplit('.', 1)[-1]
            if sb in FAM.get(sa, ()):
                return Diff('def', a, b)
            if na.startswith('!') != nb.startswith('!') and sa == sb:
                return self.congr_args(a, b, depth)
            if sb in self.spec_names or nb.lstrip('!') in self.spec_names:
                if self.spec_call_lost(a, b):
                    return Diff('unk', a, b, 'call replaced')
                return Diff('def', a, b)
            if na.lstrip('!').startswith('.') and nb.lstrip('!').startswith('.') and sa in self.vocab and sb in self.vocab \
                    and a.args[1] == b.args[1]:
                return Diff('def', a, b)
            return Diff('unk', a, b, 'call ' + nb)
        return self.congr_args(a, b, depth)

    def congr_args(self, a, b, depth):
        d = self.congr_shape(a, b, depth)
        return d

    def congr_shape(self, a, b, depth):
        fa, fb = flat(a.args[1:]), flat(b.args[1:])
        if len(fa) != len(fb):
            w = self.unknown(b)
            if any(x.op == 'star' for k, x in fa + fb):
                w = 'unpacked arguments'
            return Diff('unk' if w else 'def', a, b, w or 'different arguments')
        unk = None
        for (ka, x), (kb, y) in zip(fa, fb):
            if ka != kb:
                return Diff('unk', a, b, 'keywords')
            d = self.struct(x, y, depth + 1)
            if d is not None:
                if d.kind == 'def':
                    return d
                unk = unk or d
        if unk is None and a.args[0] == b.args[0]:
            return None
        return unk or Diff('unk', a, b)

    def binder(self, a, b, depth):
        if len(a.args) != len(b.args):
            return Diff('unk', a, b, 'loop shape')
        if isinstance(a.args[0], T) and isinstance(b.args[0], T) and not self.eq(a.args[0], b.args[0]):
            ra = ranges(a)
            if len(ra) > 1 and ra == ranges(b):
                return Diff('unk', a, b, 'loops interchanged')
        self.nfresh += 1
        o = mk('ord', '~%d' % self.nfresh)
        ma, mb = {bvof(a): o}, {bvof(b): o}
        if isinstance(a.args[0], T) and isinstance(b.args[0], T) and self.eq(a.args[0], b.args[0]) and a.args[0].op not in SEQLIKE:
            self.ordbound[o] = a.args[0]
        if a.op == 'fold' and self.permuted(a, b):
            return None
        if a.op == 'fold':
            for j in range(len(a.args)):
                c = mk('cvk', '~%d' % self.nfresh, j)
                ma[mk('cvk', height(a), j)] = c
                mb[mk('cvk', height(b), j)] = c
        unk = None
        for k, (x, y) in enumerate(zip(a.args, b.args)):
            if not isinstance(x, T) or not isinstance(y, T):
                if x != y:
                    return Diff('unk', a, b, 'loop kind')
                continue
            x2, y2 = subst(x, ma), subst(y, mb)
            if x2 is y2:
                continue
            d = self.struct(x2, y2, depth + 1)
            if d is None:
                continue
            if d.kind == 'def':
                return d
            unk = unk or d
        return unk

    def permuted(self, a, b):
        """the same fold with its carried values in another order"""
        k = TM.inner_count(a)
        if k < 2 or k > 4:
            return False
        import itertools
        for p in itertools.permutations(range(k)):
            if list(p) == list(range(k)) or p[a.args[1]] != b.args[1]:
                continue
            o, outer, inner, cvs = TM.open_binder(b)
            q = TM.mkbinder('fold', o, (outer[0], a.args[1]) + tuple(outer[2 + j] for j in p), tuple(inner[j] for j in p), tuple(cvs[j] for j in p))
            if self.eq(a, q):
                return True
        return False

    def storediff(self, a, b, depth):
        ca, ba = chain(a)
        cb, bb = chain(b)
        unk = None
        if not self.eq(ba, bb):
            d = self.struct(ba, bb, depth + 1)
            if d is not None and d.kind == 'def' and len(ca) == len(cb):
                return d
            unk = d
        ra, rb = [], list(cb)
        for i, v in ca:
            for e in rb:
                if self.eq(e[0], i):
                    rb.remove(e)
                    d = self.struct(v, e[1], depth + 1)
                    if d is not None:
                        if d.kind == 'def':
                            return d
                        unk = unk or d
                    break
            else:
                ra.append((i, v))
        if not ra and not rb:
            return unk or Diff('unk', a, b)
        if len(ra) == len(rb):
            # same number of stores at different places: pair them in order
            ds = []
            for (i, v), (j, w) in zip(ra, rb):
                ds.append(self.struct(i, j, depth + 1))
            if all(d is not None and d.kind == 'def' for d in ds):
                return ds[0]
            return unk or Diff('unk', a, b, 'different stores')
        if unk is None and self.eq(ba, bb):
            if not rb:
                # the code lacks a store the reference makes
                if all(not self.unknown(i) for i, v in cb):
                    return Diff('def', a, b, 'no store to [%s]' % clip(show(ra[0][0]), 60))
            elif not ra and all(not self.unknown(i) and not self.unknown(v) for i, v in rb):
                return Diff('def', a, b, 'additional store to [%s]' % clip(show(rb[0][0]), 60))
        return unk or Diff('unk', a, b, 'different stores')

    def seqdiff(self, a, b, depth):
        xa, xb = list(a.args), list(b.args)
        while xa and xb and self.eq(xa[0], xb[0]):
            xa.pop(0)
            xb.pop(0)
        while xa and xb and self.eq(xa[-1], xb[-1]):
            xa.pop()
            xb.pop()
        if len(xa) == 1 and len(xb) == 1:
            return self.struct(xa[0], xb[0], depth + 1)
        if not xa or not xb:
            for x in xb:
                w = self.unknown(x)
                if w:
                    return Diff('unk', a, b, w)
            return Diff('def', a, b, 'different parts')
        if set(filter(None, map(stringform, xa))) != set(filter(None, map(stringform, xb))) and any(x.op == 'fmt' for x in xa + xb):
            return Diff('unk', a, b, 'string forms')
        if len(xa) == len(xb):
            if all(any(self.eq(x, y) for y in xb) for x in xa):
                return Diff('def', a, b, 'order of parts')
            for x, y in zip(xa, xb):
                d = self.struct(x, y, depth + 1)
                if d is not None and d.kind == 'def':
                    return d
        return Diff('unk', a, b, 'sequence parts')

    def polydiff(self, a, b, depth):
        # number against a non-numeric value
        pa, pb = pd(a), pd(b)
        A = set(x for m in pa for x, e in m)
        B = set(x for m in pb for x, e in m)
        onlyA = sorted(A - B, key=lambda x: x.key)
        onlyB = sorted(B - A, key=lambda x: x.key)
        # match up atoms equal modulo normalisation
        ren = {}
        for y in list(onlyB):
            for x in onlyA:
                if x.op == y.op and self.eq(x, y):
                    ren[y] = x
        if ren:
            b2 = subst(b, ren)
            if self.eq(a, b2):
                return None
            onlyA = [x for x in onlyA if x not in ren.values()]
            onlyB = [y for y in onlyB if y not in ren]
            b = b2
        if len(onlyA) == 1 and len(onlyB) == 1:
            x, y = onlyA[0], onlyB[0]
            # if replacing y by x equalises the two, the difference is exactly x against y
            if x.op == y.op or x.op in BIND or y.op in BIND:
                try:
                    if self.eq(a, subst(b, {y: x})):
                        return self.struct(x, y, depth + 1)
                except TooBig:
                    pass
            if x.op == y.op:
                d = self.struct(x, y, depth + 1)
                if d is None:
                    return Diff('unk', a, b)
                return d
        elif len(onlyA) == len(onlyB) and onlyA:
            # try pairing by operator
            pairs = []
            rest = list(onlyB)
            for x in onlyA:
                c = [y for y in rest if y.op == x.op and skel(y) == skel(x)]
                if len(c) == 1:
                    pairs.append((x, c[0]))
                    rest.remove(c[0])
            if not rest:
                try:
                    if self.eq(a, subst(b, {y: x for x, y in pairs})):
                        unk = None
                        for x, y in pairs:
                            d = self.struct(x, y, depth + 1)
                            if d is not None and d.kind == 'def':
                                return d
                            unk = unk or d
                        return unk or Diff('unk', a, b)
                except TooBig:
                    pass
        if onlyA or onlyB:
            d = self.reductions(a, b, 0)
            if d is not None:
                return d
        for y in onlyB:
            w = self.unknown(y)
            if w:
                return Diff('unk', a, b, w)
        if any(x.op in BIND for x in onlyA) and onlyB:
            return Diff('unk', a, b, 'summarised loop against plain terms')
        if not onlyB and any(self.spec_call_lost(x, b) for x in onlyA):
            return Diff('unk', a, b, 'call replaced by other code')
        if onlyB and any(self.spec_call_lost(x, b) for x in onlyA):
            return Diff('unk', a, b, 'call replaced by other code')
        # opaque binders common to both: still a definite polynomial difference
        return Diff('def', a, b)


    def reductions(self, a, b, depth):
        """sums over the same range of polynomials in the same elements, differing in the polynomial"""
        if depth > 3:
            return None

        def gather(p):
            g = {}
            for m, c in pd(p).items():
                lin = [x for x, e in m if e == 1 and (x.op == 'sum' or x.op == 'call' and x.args[0] in ('sum', 'dot'))]
                if len(lin) != 1:
                    g[('plain', m)] = (None, pt({m: c}))
                    continue
                x = lin[0]
                rest = tuple((y, e) for y, e in m if y is not x)
                if x.op == 'sum':
                    k = ('loop', x.args[0], rest)
                    body = subst(x.args[1], {bvof(x): o})
                elif len(x.args[1]) == 1 and x.args[0] == 'sum' and not x.args[2]:
                    k = ('sum', None, rest)
                    body = x.args[1][0]
                elif len(x.args[1]) == 2 and x.args[0] == 'dot' and not x.args[2]:
                    k = ('dot', x.args[1][0], rest)
                    body = x.args[1][1]
                else:
                    g[('plain', m)] = (None, pt({m: c}))
                    continue
                if body.op == 'ite':
                    g[('plain', m)] = (None, pt({m: c}))
                    continue
                old = g.get(k)
                t = mul(mk('num', c), body)
                g[k] = (k, t if old is None else add(old[1], t))
            return g
        self.nfresh += 1
        o = mk('ord', '~%d' % self.nfresh)
        try:
            ga, gb = gather(a), gather(b)
            ks = [k for k in set(ga) | set(gb) if not (k in ga and k in gb and ga[k][1] is gb[k][1])]
            if len(ks) != 1 or ks[0] not in ga or ks[0] not in gb or ks[0][0] == 'plain':
                return None
            x, y = ga[ks[0]][1], gb[ks[0]][1]
            if x.op == 'ite' or y.op == 'ite':
                return None
        except TooBig:
            return None

        def parents(t):
            return set(z for z in walk(t) if z.op != 'poly' and any(c is o or c.op == 'poly' and any(v is o for m in pd(c) for v, e in m) for c in children(z)))
        if ks[0][0] == 'loop' and parents(x) != parents(y):
            return None
        A = set(v for m in pd(x) for v, e in m)
        B = set(v for m in pd(y) for v, e in m)
        if A == B:
            return Diff('def', x, y)
        return self.reductions(x, y, depth + 1)


def opaque(t):
    while t.op in ('fresh', 'after', 'store', 'res') and t.args:
        t = t.args[1] if t.op == 'after' else t.args[0]
        if not isinstance(t, T):
            return False
    return t.op == 'call' and t.args[0].startswith('!')


def stringform(t):
    """the way a string is composed ('' if it is not): 'a%s' % x, f'a{x}', 'a{}'.format(x), 'a' + str(x), ''.join(...)"""
    if t.op == 'fmt':
        return 'f' if t.args[0].op == 'str' and t.args[0].args[0] == 'f' else '%'
    if t.op == 'concat':
        return '+' if any(x.op in ('str', 'fmt') or x.op == 'call' and x.args[0] in ('str', 'repr') for x in t.args) else ''
    if t.op == 'call' and t.args[0].lstrip('.') in ('format', 'join', 'str', 'repr'):
        return t.args[0].lstrip('.')
    if t.op in ('poly', 'add') and any(x.op in ('str', 'fmt') or x.op == 'call' and x.args[0] in ('str', 'repr') for m in pd(t) for x, e in m):
        return '+'
    return ''


SEQLIKE = ('list', 'tuple', 'map', 'fmap', 'concat', 'str', 'dict', 'none', 'ite')


def nan_order(lits):
    """comparisons with a value that is assumed not to be a number have no negation"""
    bad = [x.args[1][0] for a, v in lits if v for x in (a, a.args[0]) if isinstance(x, T) and x.op == 'call'
           and x.args[0].rsplit('.', 1)[-1] == 'isnan' and x.args[1]]
    return any(mentions(a, t) for t in bad for a, v in lits if a.op in ('lt0', 'eq0'))


REMOVERS = {'remove', 'discard', 'pop', 'del'}
ATOMIC = ('const', 'num', 'sym', 'attr', 'param', 'ord', 'bv')


def assume(t, lits):
    """the nested decisions of t on literals of the path taken"""
    val = dict(lits)
    hit = [x for x in walk(t) if x.op == 'ite' and x.args[0] in val]
    if not hit:
        return t
    memo = {}

    def arg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(arg(x) for x in a)
        return a

    def go(x):
        while x.op == 'ite' and x.args[0] in val:
            x = x.args[1] if val[x.args[0]] else x.args[2]
        r = memo.get(x)
        if r is not None:
            return r
        if not x.args or x.op in ATOMIC or x in val:
            r = x
        elif x.op in TM.BINDERS and x.op != 'flat':
            o, outer, inner, cvs = TM.open_binder(x)
            no, ni = tuple(arg(a) for a in outer), tuple(arg(a) for a in inner)
            r = x if no == tuple(outer) and ni == tuple(inner) else TM.close_binder(x.op, o, no, ni, cvs)
        else:
            na = tuple(arg(a) for a in x.args)
            r = x if na == x.args else TM.rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def is_fill(a, b):
    return a is ZERO and b.op == 'call' and b.args[0] == 'zeros' or a is ONE and b.op == 'call' and b.args[0] == 'ones'


def ranges(t):
    return sorted(str(x.args[0].key) for x in walk(t) if x.op in BIND and isinstance(x.args[0], T))


def skel(t):
    return tuple(x if not isinstance(x, (T, tuple)) else None for x in t.args)


def flat(args):
    out = []
    for x in args:
        if isinstance(x, T):
            out.append(('', x))
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    out.append(('', y))
                elif isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], T):
                    out.append((str(y[0]), y[1]))
                else:
                    out.append(('c', string(repr(y))))
        else:
            out.append(('c', string(repr(x))))
    return out


def chain(t):
    out = []
    while t.op == 'store':
        out.append((t.args[1], t.args[2]))
        t = t.args[0]
    return out, t


# ---------------------------------------------------------------- traces
class Event(object):
    __slots__ = ('name', 'recv', 'args', 'kw', 'snap', 'line', 'guard', 'loops', 'ids', 'pos', 'parts')

    def key(self):
        return (self.name, self.recv, self.args, self.kw, self.guard, self.loops)

    def show(self):
        s = '%s%s(%s)' % (show(self.recv) if self.recv is not None else '', self.name if self.recv is None or self.name.startswith('.') else '->' + self.name,
                          ', '.join([show(a) for a in self.args] + ['%s=%s' % (n, show(v)) for n, v in self.kw]))
        return clip(s)


def flatten(trace):
    out = []

    def go(tr, guard, loops, ids, ren, fresh):
        for x in tr:
            if x[0] == 'ev':
                _, name, r, a, k, snap, ln = x
                e = Event()
                f = (lambda t: subst(t, ren)) if ren else (lambda t: t)
                e.name, e.recv = name, (f(r) if r is not None else None)
                e.args = tuple(f(y) for y in a)
                e.kw = tuple((n, f(v)) for n, v in k)
                e.snap = tuple((f(p), f(q)) for p, q in snap)
                e.line = ln
                e.guard, e.loops, e.ids, e.pos = guard, loops, ids, len(out)
                e.parts = ((guard, len(out)),)
                out.append(e)
            elif x[0] == 'wr':
                f = (lambda t: subst(t, ren)) if ren else (lambda t: t)
                e = Event()
                e.name, e.recv = 'write', f(x[1])
                e.args, e.kw, e.snap, e.line = (f(x[2]),), (), (), x[3]
                e.guard, e.loops, e.ids, e.pos = guard, loops, ids, len(out)
                e.parts = ((guard, len(out)),)
                out.append(e)
            elif x[0] == 'if':
                c = subst(x[1], ren) if ren else x[1]
                g1, g2 = and_(guard, c), and_(guard, not_(c))
                if g1 is not FALSE:
                    go(x[2], g1, loops, ids, ren, fresh)
                if g2 is not FALSE:
                    go(x[3], g2, loops, ids, ren, fresh)
            elif x[0] == 'loop':
                _, n, o, stop, body = x
                n2 = subst(n, ren) if ren else n
                r2 = dict(ren)
                r2[o] = mk('ord', '#%d' % len(loops))
                st2 = subst(stop, r2)
                fresh[0] += 1
                go(body, guard, loops + ((n2, st2),), ids + (fresh[0],), r2, fresh)
    go(trace, TRUE, (), (), {}, [0])
    return out


def merge_disjoint(evs):
    """fold same-named events with disjoint guards in the same loop nest into one gated event"""
    out = []
    for e in evs:
        for q in out:
            if q.name == e.name and q.loops == e.loops and len(q.args) == len(e.args) and tuple(n for n, _ in q.kw) == tuple(n for n, _ in e.kw) \
                    and (q.recv is None) == (e.recv is None) and and_(q.guard, e.guard) is FALSE and q.ids == e.ids:
                c = q.guard
                from .ev import restrict
                f = lambda x, y: x if x is y else restrict(ite(c, x, y), or_(q.guard, e.guard))
                if q.recv is not None:
                    q.recv = f(q.recv, e.recv)
                q.args = tuple(f(x, y) for x, y in zip(q.args, e.args))
                q.kw = tuple((n, f(x, y)) for (n, x), (_, y) in zip(q.kw, e.kw))
                q.guard = or_(q.guard, e.guard)
                q.parts = q.parts + e.parts
                sn = dict(q.snap)
                es = dict(e.snap)
                q.snap = tuple((k, f(sn.get(k, k), es.get(k, k))) for k in sorted(set(sn) | set(es), key=lambda t: t.key))
                break
        else:
            out.append(copy_event(e))
    return out


def copy_event(e):
    q = Event()
    for s in Event.__slots__:
        setattr(q, s, getattr(e, s))
    return q

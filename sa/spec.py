"""Reference specifications: Python functions in /verif/specs, read as syntax (never executed)."""
import ast
from .normal import normalise
import copy
import os
import json
from .terms import *
from . import terms as TM
from .loader import Module, FuncInfo, ClassInfo, AnalysisBroken, mangle
from .ev import ddwalk, Evaluator, Unsupported, restrict, CONTAINER_METHODS
from .diff import Comparer, Diff, flatten, merge_disjoint, clip, copy_event

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_vocab():
    with open(os.path.join(HERE, 'specs', 'vocab.json')) as f:
        return set(json.load(f))


# what an event may write, where the name-based closure would say "anything" because it ends in user code
FRAME = {'_oneEvaluation': frozenset(['bestEvaluation', 'bestEvaluable', 'numEvaluations', 'feasible', 'violation',
                                      '_allEvaluations', '_allEvaluated', 'params', '_params', 'mask', 'returnZeros'])}


class Opt(object):
    def __init__(self):
        self.events = set()
        self.inline = set()
        self.pure = set()
        self.types = {}
        self.arrays = set()
        self.watch = set()
        self.skip = set()
        self.only = None
        self.ordered = False
        self.strict = False
        self.ignore = set()
        self.subclasses = False
        self.raises = False
        self.loose = False
        self.alias = False
        self.rolled = False
        self.shared = set()
        self.state = set()
        self.cases = []
        self.frame = dict(FRAME)

    def copy(self):
        o = Opt()
        for k, v in self.__dict__.items():
            setattr(o, k, v.copy() if isinstance(v, (set, dict, list)) else v)
        return o


def lits(call):
    return [ast.literal_eval(a) for a in call.args]


def read_opts(o, decs):
    for d in decs:
        n = d.func.id if isinstance(d, ast.Call) else d.id if isinstance(d, ast.Name) else None
        if n in ('ordered', 'strict', 'subclasses', 'raises', 'loose', 'alias', 'rolled'):
            setattr(o, n, True)
        elif n in ('events', 'inline', 'pure', 'arrays', 'watch', 'skip', 'ignore', 'shared', 'state'):
            getattr(o, n).update(lits(d))
        elif n == 'frame':
            a = lits(d)
            o.frame[a[0]] = frozenset(a[1:])
        elif n == 'cases':
            o.cases = lits(d)
        elif n == 'only':
            o.only = set(lits(d))
        elif n == 'types':
            for k in d.keywords:
                o.types[k.arg.replace('__', '.')] = ast.literal_eval(k.value)
            if d.args:
                o.types.update(ast.literal_eval(d.args[0]))
    return o


class SpecItem(object):
    def __init__(self, prop, func_node, targets, name, opts, mod, is_method):
        self.prop = prop
        self.node = func_node
        self.targets = targets      # class paths or function paths
        self.name = name
        self.opts = opts
        self.mod = mod
        self.is_method = is_method


def load_specs(prog, path, prop):
    with open(path) as f:
        src = f.read()
    mod = Module.__new__(Module)
    mod.prog = prog
    mod.name = 'spec.' + prop
    mod.path = path
    mod.src = src
    mod.tree = normalise(ast.parse(src))
    mod.is_pkg = False
    mod.globals = {}
    mod.stars = []
    mod.assign_counts = {}
    saved = dict(prog.classes)
    for st in mod.tree.body:
        if isinstance(st, (ast.ImportFrom, ast.Import, ast.Assign)):
            mod._stmt(st)
        elif isinstance(st, ast.FunctionDef) and not st.decorator_list:
            mod._stmt(st)
    prog.classes = saved
    items = []
    for st in mod.tree.body:
        if isinstance(st, ast.ClassDef):
            tg = []
            o = Opt()
            rest = []
            for d in st.decorator_list:
                if isinstance(d, ast.Call) and d.func.id == 'target':
                    tg += lits(d)
                else:
                    rest.append(d)
            read_opts(o, rest)
            for m in st.body:
                if isinstance(m, ast.FunctionDef):
                    oo = read_opts(o.copy(), m.decorator_list)
                    nm = m.name
                    for d in m.decorator_list:
                        if isinstance(d, ast.Call) and d.func.id == 'named':
                            nm = lits(d)[0]
                    items.append(SpecItem(prop, m, tg, nm, oo, mod, True))
        elif isinstance(st, ast.FunctionDef) and st.decorator_list:
            tg = []
            rest = []
            for d in st.decorator_list:
                if isinstance(d, ast.Call) and d.func.id == 'target':
                    tg += lits(d)
                else:
                    rest.append(d)
            items.append(SpecItem(prop, st, tg, st.name, read_opts(Opt(), rest), mod, False))
    return mod, items


def load_also(prog, prop, items):
    """the references other properties hold for further methods of the classes this one is anchored in (specs/also.json)"""
    p = os.path.join(HERE, 'specs', 'also.json')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            want = json.load(f).get(prop, [])
        if want:
            have = set((t, i.name) for i in items for t in i.targets)
            for fn in sorted(os.listdir(os.path.join(HERE, 'specs'))):
                if not fn.endswith('.py') or fn == prop + '.py':
                    continue
                with open(os.path.join(HERE, 'specs', fn)) as f:
                    src = f.read()
                if not any(w in src for w in want):
                    continue
                for it in load_specs(prog, os.path.join(HERE, 'specs', fn), prop)[1]:
                    ts = [t for t in it.targets if any(t.endswith('.' + w) for w in want) and (t, it.name) not in have]
                    if it.is_method and ts:
                        it.targets = ts
                        have |= set((t, it.name) for t in ts)
                        out.append(it)
    return out


def called_names(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                out.add(n.func.attr)
            elif isinstance(n.func, ast.Name):
                out.add(n.func.id)
    return out


def names_used(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            out.add(n.value)
        elif isinstance(n, ast.keyword) and n.arg:
            out.add(n.arg)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
    return out


class Outcome(object):
    def __init__(self, item, target, func, status, diffs, notes=(), obligations=0, proven=0, spec=None, code=None):
        self.item, self.target, self.func, self.status, self.diffs, self.notes = item, target, func, status, diffs, notes
        self.obligations, self.proven = obligations, proven
        self.spec, self.code = spec, code

    def key(self):
        return '%s.%s' % (self.target, self.item.name) if self.item.is_method else self.target


class Checker(object):
    def __init__(self, prog, vocab):
        self.prog = prog
        self.vocab = vocab
        self.defs = {}
        for f in prog.all_functions():
            self.defs.setdefault(f.node.name if hasattr(f.node, 'name') else f.name, []).append(f)

    def event_names(self, item):
        o = item.opts
        ev = set()
        for n in called_names(item.node):
            if n in CONTAINER_METHODS and not n.startswith('_'):
                continue
            if n in self.defs or n in KNOWN_DEFS(self):
                ev.add(n)
        ev.discard('setArgs')
        ev |= o.events
        ev -= o.inline
        if item.name in ev and item.name not in o.events:
            # a base-class call of the method under specification is inlined
            ev.discard(item.name)
        return ev

    def evaluator(self, item, events, cls):
        o = item.opts
        e = Evaluator(self.prog, events=events, inline=o.inline, pure=o.pure, arrays=o.arrays, frame=o.frame)
        if o.rolled:
            e.unroll_max = 1
        for path, cn in o.types.items():
            e.types[self.path_term(path)] = self.prog.cls(cn)
        return e

    def path_term(self, path):
        parts = path.split('.')
        t = sym(parts[0])
        for p in parts[1:]:
            t = mk('attr', t, p)
        return t

    def check_item(self, item):
        out = []
        for tg in item.targets:
            if not item.is_method:
                try:
                    f = self.prog.func(tg)
                except AnalysisBroken as e:
                    out.append(Outcome(item, tg, None, 'missing', [], [str(e)]))
                    continue
                out.append(self.check_one(item, tg, f, None))
                continue
            try:
                cls = self.prog.cls(tg)
            except AnalysisBroken as e:
                out.append(Outcome(item, tg, None, 'missing', [], [str(e)]))
                continue
            classes = [cls]
            if item.opts.subclasses:
                classes = [cls] + [c for c in cls.subclasses() if c is not cls]
            base = None
            for c in classes:
                n = mangle(item.name, c.name)
                f = c.find(n)
                if f is None:
                    p = c.find_prop(n)
                    if p is not None and p[0] is not None:
                        f = p[0]
                if c is cls:
                    base = f
                elif f is not base and c is not cls:
                    continue        # overridden: has its own reference or none
                if f is None:
                    out.append(Outcome(item, c.qual, None, 'missing', [], ['no method %s' % item.name]))
                    continue
                out.append(self.check_one(item, c.qual, f, c))
        return out

    def check_one(self, item, tg, f, cls):
        events = self.event_names(item)
        r = self.attempt(item, tg, f, cls, events)
        tried = 0
        while r.status == 'refuted' and tried < 2:
            lost = self.lost(item, r, cls)
            if lost is None:
                r = Outcome(item, tg, f, 'undecided', r.diffs, list(r.notes) + ['a function named by the reference no longer exists'],
                            r.obligations, r.proven, r.spec, r.code)
                break
            if not lost:
                break
            tried += 1
            events = events - lost
            r2 = self.attempt(item, tg, f, cls, events)
            if r2.status != 'refuted':
                r2.notes = list(r2.notes) + ['with %s expanded' % ', '.join(sorted(lost))]
                return r2
            r = r2 if r2.spec is not None else r
        return r

    def lost(self, item, r, cls):
        """names the reference calls and the code does not, that can be expanded on both sides"""
        if r.spec is None or r.code is None:
            return set()
        ms = r.spec.called - r.code.called
        out = set()
        for n in ms:
            if n not in self.defs and n in self.vocab and not n.startswith('random'):
                if any(n == x for x in called_names(item.node)) and n in KNOWN_DEFS(self):
                    return None
            if n in self.defs and n not in item.opts.events:
                out.add(n)
        return out

    def attempt(self, item, tg, f, cls, events):
        if not item.opts.cases:
            return self.attempt_(item, tg, f, cls, events, {})
        out = None
        names = item.opts.cases
        for k in range(2 ** len(names)):
            given = {}
            for j, n in enumerate(names):
                hi = bool(k >> j & 1)
                if n.endswith('?'):
                    given[n[:-1]] = TRUE if hi else FALSE
                else:
                    given[n] = sym(n + '\u00b0') if hi else NONE
            r = self.attempt_(item, tg, f, cls, events, given)
            if r.status == 'undecided' and r.spec is None:
                return r
            if out is None:
                out = r
            else:
                worst = max((out, r), key=lambda x: ('proven', 'undecided', 'refuted').index(x.status))
                out = Outcome(item, tg, f, worst.status, worst.diffs, worst.notes, out.obligations + r.obligations, out.proven + r.proven,
                              worst.spec, worst.code)
            if out.status == 'refuted':
                break
        return out

    def attempt_(self, item, tg, f, cls, events, given):
        r = self.attempt1(item, tg, f, cls, events, given)
        if r.status == 'undecided' and any('TooBig' in n for n in r.notes):
            b = self.attempt1(item, tg, f, cls, events, given, True)
            if b.status != 'undecided' or r.spec is None:
                b.notes.append('case distinctions of locals are compared as named values')
                return b
        return r

    def attempt1(self, item, tg, f, cls, events, given, boxed=False):
        params = [a.arg for a in item.node.args.args]
        if item.is_method and params and not is_static(item.node):
            pn = params[1:]
        else:
            pn = params
        smod = copy.copy(item.mod)
        smod.name = '%s@%s' % (item.mod.name, f.mod.name)
        smod.fallback = f.mod
        sf = FuncInfo(smod, item.node, f.cls if cls is None else (f.cls or cls), item.name)
        if f.cls is None:
            sf.cls = None
        sf.static = f.static
        sf.classm = f.classm
        try:
            es = self.evaluator(item, events, cls)
            es.boxes = [] if boxed else None
            es.extra_stack = [f]
            es.given = given
            ss = es.summarise(sf, cls, pnames=pn)
        except (TooBig, Unsupported, RecursionError, AnalysisBroken) as e:
            if os.environ.get('SA_TB'):
                import traceback
                traceback.print_exc(limit=-int(os.environ['SA_TB']))
            return Outcome(item, tg, f, 'undecided', [], ['reference not summarised: %s %s' % (type(e).__name__, e)])
        try:
            ec = self.evaluator(item, events, cls)
            ec.boxes = [] if boxed else None
            ec.given = given
            sc = ec.summarise(f, cls, pnames=pn)
        except (TooBig, Unsupported, RecursionError) as e:
            if os.environ.get('SA_TB'):
                import traceback
                traceback.print_exc(limit=int(os.environ['SA_TB']))
            return Outcome(item, tg, f, 'undecided', [], ['code not summarised: %s %s' % (type(e).__name__, e)])
        cmp = SummaryComparer(self, item, events, ss, sc, es, ec)
        if boxed:
            try:
                d = boxdiff(ss, sc, es.boxes, ec.boxes, cmp.c)
            except (TooBig, RecursionError):
                d = False
            if d is not None:
                cmp.ob('intermediate value', d or Diff('unk', NONE, NONE, 'named case distinctions differ'))
                return Outcome(item, tg, f, 'refuted' if cmp.bad else 'undecided', cmp.bad or cmp.unk, cmp.notes, 1, 0, ss, sc)
        try:
            cmp.run()
        except (TooBig, RecursionError) as e:
            cmp.note('comparison: ' + type(e).__name__)
            cmp.unk.append(('comparison', Diff('unk', NONE, NONE, 'size')))
        st = 'refuted' if cmp.bad else 'undecided' if cmp.unk else 'proven'
        return Outcome(item, tg, f, st, cmp.bad if cmp.bad else cmp.unk, cmp.notes, cmp.total, cmp.ok, ss, sc)


def boxdiff(ss, sc, bs, bc, c):
    """Where two summaries over named case distinctions differ: None if no name occurs on one side only; a Diff if the summaries become
    equal when the differing names are identified pairwise, and the first pair stands for definitely different values; else False."""
    def values(s):
        out = [s.ret]
        for k in sorted(s.heap, key=lambda t: t.key):
            out.append(s.heap[k])
        return out

    def used(vs, order):
        have = set(x for v in vs for x in walk(v) if x.op == 'box')
        return [b for b in order if b in have] + [b for b in have if b not in order]
    if set(ss.heap) != set(sc.heap):
        return False
    vs, vc = values(ss), values(sc)
    first = None
    for rnd in range(40):
        TM.reset_limit()
        us, uc = used(vs, bs), used(vc, bc)
        ds, dc = [b for b in us if b not in set(uc)], [b for b in uc if b not in set(us)]
        if not ds and not dc:
            if first is None:
                return None
            return first if all(x is y for x, y in zip(vs, vc)) else False
        inner = [[b for b in d if not any(x in d for x in walk(b.args[0]))] for d in (ds, dc)]
        if len(inner[0]) != len(inner[1]):
            if first is None and len(ds) + len(dc) == 1:
                # a bound that only one side has: identified with one of its cases
                b = (ds or dc)[0]
                mine, other = (vs, vc) if ds else (vc, vs)
                for p in ddwalk(b.args[0]):
                    if p.op != 'ite' and all(subst(x, {b: p}) is y for x, y in zip(mine, other)):
                        return Diff('def', b.args[0] if ds else p, p if ds else b.args[0], 'a case is bounded on one side only')
            return False
        ms, mc = {}, {}
        for k, (x, y) in enumerate(zip(*inner)):
            if first is None:
                d = c.diff(x.args[0], y.args[0])
                if d is None or d.kind != 'def':
                    return False
                first = d
            ms[x] = mc[y] = mk('sym', '?same%d.%d' % (rnd, k))
        vs, vc = [subst(v, ms) for v in vs], [subst(v, mc) for v in vc]
        bs, bc = [subst(b, ms) for b in bs], [subst(b, mc) for b in bc]
    return False


def KNOWN_DEFS(ch):
    k = getattr(ch, '_kd', None)
    if k is None:
        p = os.path.join(HERE, 'specs', 'defs.json')
        k = ch._kd = set(json.load(open(p))) if os.path.exists(p) else set()
    return k


def is_static(node):
    return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)


class SummaryComparer(object):
    def __init__(self, ch, item, events, ss, sc, es, ec):
        self.ch, self.item, self.events, self.ss, self.sc, self.es, self.ec = ch, item, events, ss, sc, es, ec
        self.bad, self.unk, self.notes = [], [], []
        self.total = self.ok = 0
        self.used = names_used(item.node)
        self.vocab = ch.vocab
        specn = set(self.used) | set(events)
        # names appearing in the evaluated reference (through inlined repository helpers) are understood as well
        for t in [ss.ret, ss.raised] + list(ss.heap) + list(ss.heap.values()):
            for x in walk(t):
                if x.op == 'call':
                    specn.add(x.args[0].lstrip('!'))
                    specn.add(x.args[0].lstrip('!').rsplit('.', 1)[-1])
                elif x.op == 'attr':
                    specn.add(x.args[1])
        for e in flatten(ss.trace):
            specn.add(e.name.rsplit('.', 1)[-1])
            for t in list(e.args) + [v for _, v in e.kw] + ([e.recv] if e.recv is not None else []):
                for x in walk(t):
                    if x.op == 'call':
                        specn.add(x.args[0].lstrip('!'))
                        specn.add(x.args[0].lstrip('!').rsplit('.', 1)[-1])
        self.specn = specn
        self.c = Comparer(self.vocab, specn, item.opts.strict, item.opts.ordered)
        self.c.constants = ch.prog.const_attrs()
        self.c.purity = es.purity

    def note(self, s):
        self.notes.append(s)

    def ob(self, what, d, line=0):
        self.total += 1
        if d is None:
            self.ok += 1
            return
        if d.kind == 'def' and self.sc.approx and not self.ss.approx:
            d = Diff('unk', d.a, d.b, 'code not exactly summarised: ' + d.why, d.lits)
        if d.kind == 'def' and self.item.opts.loose:
            d = Diff('unk', d.a, d.b, d.why, d.lits)
        (self.bad if d.kind == 'def' else self.unk).append((what, d))

    def run(self):
        o, ss, sc, c = self.item.opts, self.ss, self.sc, self.c
        only = o.only
        # defaults
        nd = len(self.item.node.args.defaults)
        if nd:
            for n, v in ss.defaults.items():
                w = sc.defaults.get(n)
                if n >= len(sc.params):
                    self.ob('parameter %s' % ss.params[n], Diff('def', v, sym('no parameter')))
                elif w is None:
                    self.ob('default of %s' % ss.params[n], Diff('def', v, sym('no default')))
                else:
                    self.ob('default of %s' % ss.params[n], c.diff(v, w))
        elif len(sc.params) < len(ss.params) and not any(a for a in [self.item.node.args.vararg]) and not sc.func.node.args.vararg:
            self.ob('parameters', Diff('def', num(len(ss.params)), num(len(sc.params))))
        ns, nc = not_(ss.raised), not_(sc.raised)
        care = and_(ns, nc)
        # raises
        if (only is None or 'raises' in only) and 'raises' not in o.skip:
            if ss.raised is not FALSE or o.raises:
                miss = and_(ss.raised, nc)
                d = c.decide(ss.raised, sc.raised) if o.raises else c.decide(ss.raised, sc.raised, ss.raised)
                self.ob('raise condition', d)
                # exception type
                ts, tc = raise_types(ss.trace), raise_types(sc.trace)
                if ts and tc and 'AssertionError' not in ts and d is None:
                    if set(ts) != set(tc) and o.raises:
                        self.ob('exception type', Diff('def', sym(','.join(sorted(ts))), sym(','.join(sorted(tc)))))
        if (only is None or 'ret' in only) and 'ret' not in o.skip:
            if not (ss.ret is NONE and sc.ret is not NONE and only is None and returns_nothing(self.item.node)):
                d = c.decide(ss.ret, sc.ret, care)
                self.ob('return value', d or self.aliasing(ss.ret, sc.ret, care))
        # heap
        hs, hc = ss.heap, sc.heap
        keys = {}
        for side, h in ((0, hs), (1, hc)):
            for k in h:
                old = keys.setdefault(self.lockey(k), [None, None])
                if old[side] is None or h[k] is not k:      # several readings of one location: the assigned one
                    old[side] = k
        same_calls = set(e.name for e in flatten(sc.trace)) <= set(e.name for e in flatten(ss.trace))
        for kk in sorted(keys, key=lambda t: t.key):
            ks, kc = keys[kk]
            name = self.locname(kk)
            if name in o.skip or name in o.ignore:
                continue
            if only is not None and name not in only and 'heap' not in only:
                continue
            if ks is not None and kc is not None:
                if same_calls:
                    self.c.untouched = kc
                d = self.c.decide(hs[ks], hc[kc], care)
                self.c.untouched = None
                if d is None:
                    d = self.aliasing(hs[ks], hc[kc], care) or self.rebinding(name, ks, kc)
                self.ob('final value of ' + clip(show(kk)), d)
            elif ks is not None:
                d = c.decide(hs[ks], self.unchanged(sc, ks), care)
                if d is not None and kk.op in ('call', 'res') and not kk.args[0].startswith(('!new:', 'new:')):
                    d = Diff('unk', d.a, d.b, 'change of the result of a call', d.lits)
                elif d is not None and d.kind == 'unk' and self.never_written(name):
                    d = Diff('def', d.a, d.b, 'the code never changes it', d.lits)
                if d is None:
                    d = self.aliasing(hs[ks], self.unchanged(sc, ks), care)
                self.ob('final value of ' + clip(show(kk)), d)
            else:
                v = hc[kc]
                if self.c.eq(restrict(v, care), restrict(self.unchanged(ss, kc), care)):
                    continue
                if name in o.watch or (name in self.used and name in self.vocab and kc.op in ('attr', 'sym', 'idx')):
                    d = c.diff(self.unchanged(ss, kc), v, care)
                    if d is not None and d.kind == 'def' and name not in o.watch and (name not in self.written() and not self.is_param(kk)):
                        d.kind = 'unk'
                    self.ob('unexpected change of ' + clip(show(kk)), d)
        if (only is None or 'events' in only) and 'events' not in o.skip:
            self.events_()

    def aliasing(self, a, b, care):
        """values agree; does the code hand out the object itself where the reference hands out a copy?"""
        memo = set()

        def loc(x):
            return x.op in ('attr', 'idx', 'sym', 'after', 'store', 'mapstore')

        def go(a, b, g):
            if a is b or g is FALSE:
                return None
            if (a, b, g) in memo:
                return None
            memo.add((a, b, g))
            if a.op == 'ite' or b.op == 'ite':
                t = topatom((a, b))
                return go(constrain(a, t, True), constrain(b, t, True), constrain(g, t, True)) or \
                    go(constrain(a, t, False), constrain(b, t, False), constrain(g, t, False))
            if a.op == 'fresh' and b.op != 'fresh' and loc(strip_fresh(a)) and loc(b) and self.c.eq(strip_fresh(a), b):
                return Diff('def', a, b, 'the reference hands out a copy, the code the object itself')
            if self.item.opts.alias and b.op == 'fresh' and a.op != 'fresh' and loc(a) and self.c.eq(a, strip_fresh(b)):
                return Diff('def', a, b, 'the reference hands out the object itself, the code a copy')
            if a.op == b.op and a.op in ('list', 'tuple', 'map', 'call', 'dict', 'res', 'concat') and len(a.args) == len(b.args):
                if a.op == 'call' and (a.args[0] != b.args[0] or not a.args[0].startswith('!')):
                    return None
                for x, y in zip(a.args, b.args):
                    d = pair(x, y, TRUE)
                    if d:
                        return d
            return None

        def pair(x, y, g):
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and not hasattr(x, 'op'):
                for p, q in zip(x, y):
                    d = pair(p, q, g)
                    if d:
                        return d
                return None
            if hasattr(x, 'op') and hasattr(y, 'op'):
                return go(x, y, g)
            return None
        return go(a, b, care)

    SHARED = {'params', 'derivs', '_params', '_derivs', 'inputbuffer', 'outputbuffer', 'inputerror', 'outputerror'}

    def rebinding(self, name, ks, kc):
        """a shared array has to be updated in place"""
        if name not in self.SHARED and name not in self.item.opts.shared:
            return None
        ms, mc = self.mode(self.ss, ks), self.mode(self.sc, kc)
        if ms == 'inplace' and mc == 'bind' and not self.augmented(name):
            return Diff('def', sym('in-place update'), sym('rebinding'), 'other holders of the array no longer see the update')
        if ms == 'bind' and mc == 'inplace' and self.item.opts.alias:
            return Diff('def', sym('rebinding'), sym('in-place update'), 'the previously bound array is overwritten')
        return None

    def mode(self, s, k):
        for l, v in s.final.heap.items():
            if l is k or self.lockey(l) is self.lockey(k):
                return 'inplace' if all(x is l for x in leafset(v)) else 'bind'
        return 'inplace'

    def augmented(self, name):
        fs = [self.sc.func] + [f for f in self.ch.prog.all_functions() if f.qual in self.sc.inlined]
        for f in fs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                    return True
        return False

    def is_param(self, k):
        while k.op in ('attr', 'idx', 'after'):
            k = k.args[1] if k.op == 'after' else k.args[0]
        return k.op == 'sym' and k.args[0] != 'self'

    def written(self):
        w = getattr(self, '_w', None)
        if w is None:
            w = self._w = set(self.locname(k) for k in self.ss.heap)
        return w

    def never_written(self, name):
        """no store of the code reaches an attribute of this name, and every call it makes is one the reference makes too"""
        if self.sc.approx or any(self.locname(k) == name for k in self.sc.heap):
            return False
        mine = set(self.ename(e) for e in flatten(self.ss.trace))
        for e in flatten(self.sc.trace):
            if e.name == 'write':
                if self.locname(e.recv) == name:
                    return False
            elif self.ename(e) not in mine:
                return False
        return True

    def lockey(self, k):
        return self.c.noafter(k)

    def locname(self, k):
        while k.op in ('idx', 'after'):
            k = k.args[1] if k.op == 'after' else k.args[0]
        if k.op in ('attr', 'argd'):
            return k.args[1]
        if k.op == 'sym':
            return k.args[0]
        return '?'

    def unchanged(self, s, loc):
        if loc.op == 'attr':
            ev = self.ec if s is self.sc else self.es
            return ev.mat(s.final, ev.default_read(s.final, loc))
        return loc

    # ------------------------------------------------------------ events
    def events_(self):
        o = self.item.opts
        S, C = flatten(self.ss.trace), flatten(self.sc.trace)
        S = [e for e in S if e.name.rsplit('.', 1)[-1] not in o.ignore]
        C = [e for e in C if e.name.rsplit('.', 1)[-1] not in o.ignore]
        ns, nc = not_(self.ss.raised), not_(self.sc.raised)
        care = and_(ns, nc)
        names = []
        for e in S + C:
            if self.ename(e) not in names:
                names.append(self.ename(e))
        foreign = []
        match = {}
        pend = []
        for n in names:
            s = [e for e in S if self.ename(e) == n]
            c = [e for e in C if self.ename(e) == n]
            if not s:
                foreign += c
                continue
            if len(s) != len(c):
                s, c = merge_disjoint(s), merge_disjoint(c)
            rs, rc = [], list(c)
            for e in s:
                for q in rc:
                    if self.same_event(e, q, care):
                        match[id(e)] = (e, q)
                        rc.remove(q)
                        d = None
                        if n != 'write':
                            for x, y in list(zip(e.args, q.args)) + [(x[1], y[1]) for x, y in zip(e.kw, q.kw)]:
                                d = d or self.aliasing(x, y, e.guard)
                        self.ob('call ' + n + (' (line %d)' % q.line if d else ''), d)
                        self.snapcmp(e, q)
                        break
                else:
                    rs.append(e)
            if rs or rc:
                pend.append((n, rs, rc, s, c))
        unknown_foreign = [e for e in foreign if not self.known_event(e)]
        for n, rs, rc, s0, c0 in pend:
            if len(rs) == len(rc):
                table = {}
                if 1 < len(rs) <= 8:
                    # the same events, found in another order
                    for e in list(rs):
                        for q in list(rc):
                            d = table[id(e), id(q)] = self.eventdiff(e, q, care)
                            if d is None and (e.recv is None) == (q.recv is None):
                                self.ob('call ' + n, None)
                                match[id(e)] = (e, q)
                                rs.remove(e)
                                rc.remove(q)
                                break
                for e, q in zip(rs, rc):
                    d = table[id(e), id(q)] if (id(e), id(q)) in table else self.eventdiff(e, q, care)
                    if d is None:
                        d = Diff('unk', NONE, NONE, 'event')
                    for r in rc:
                        if d.kind == 'def' and r is not q and table and table.get((id(e), id(r)), d).kind != 'def':
                            d = Diff('unk', d.a, d.b, 'may be another call')
                    self.ob('call %s at line %d' % (e.show(), q.line), d)
                    match[id(e)] = (e, q)
            elif len(rs) > len(rc) and not rc:
                for e in rs:
                    k = 'unk' if (unknown_foreign or self.sc.approx or (len(c0) and len(s0) - len(rs) != len(c0))) else 'def'
                    if n == 'write' and k == 'def':
                        k = 'def' if not any(self.locname(q.recv) == self.locname(e.recv) for q in c0) else 'unk'
                    if self.resummarised(e):
                        k = 'unk'
                    self.ob('missing ' + ('write ' if n == 'write' else 'call ') + e.show(), Diff(k, sym(e.name), NONE, 'the reference performs it', guardlits(e)))
            elif len(rc) > len(rs) and not rs:
                for q in rc:
                    k = 'def' if n != 'write' else ('def' if self.locname(q.recv) in self.written_tr() else 'unk')
                    for t in list(q.args) + [q.guard]:
                        if self.c.unknown(t) and n != 'write':
                            k = 'unk'
                    if n == 'write' and k == 'def':
                        k = 'unk'
                    self.ob('additional ' + ('write ' if n == 'write' else 'call ') + q.show() + ' at line %d' % q.line,
                            Diff(k, NONE, sym(q.name), 'the reference does not perform it', guardlits(q)))
            else:
                # unequal numbers on both sides
                self.ob('calls %s: %d in the reference, %d in the code left over' % (n, len(rs), len(rc)), Diff('unk', NONE, NONE, 'alignment'))
        # order
        ms = [m for m in match.values()]
        ms.sort(key=lambda m: m[0].pos)
        for i in range(len(ms)):
            for j in range(i + 1, len(ms)):
                (e1, q1), (e2, q2) = ms[i], ms[j]
                if e1.name == 'write' or e2.name == 'write':
                    continue
                if and_(e1.guard, e2.guard) is FALSE:
                    continue
                if not self.order_matters(e1, e2):
                    continue
                a, b = rel(e1, e2), rel(q1, q2)
                if a == b or a[0] == b[0] and max(len(x.parts) for x in (e1, e2, q1, q2)) > 1 and self.same_order(e1, e2, q1, q2):
                    self.ob('order', None)
                    continue
                k = 'def' if (o.ordered or self.conflict(e1, e2)) else 'unk'
                if a[1] == b[1] and a[0] != b[0] and not o.ordered:
                    k = 'unk' if not self.conflict(e1, e2) else k
                self.ob('order of %s and %s (line %d)' % (e1.show(), e2.show(), q2.line), Diff(k, sym(relname(a)), sym(relname(b))))

    def same_order(self, e1, e2, q1, q2):
        """events performed in several places: wherever two of these can both be performed, their order is the reference's"""
        for g1, p1 in e1.parts:
            for g2, p2 in e2.parts:
                g = and_(g1, g2)
                if g is FALSE:
                    continue
                for h1, r1 in q1.parts:
                    for h2, r2 in q2.parts:
                        if (p1 < p2) != (r1 < r2) and and_(g, and_(h1, h2)) is not FALSE:
                            return False
        return True

    def resummarised(self, e):
        return False

    def written_tr(self):
        return set(self.locname(e.recv) for e in flatten(self.ss.trace) if e.name == 'write')

    def ename(self, e):
        if e.name == 'write':
            return 'write'
        return e.name.rsplit('.', 1)[-1]

    def known_event(self, e):
        if e.name == 'write':
            return True
        n = e.name.rsplit('.', 1)[-1]
        return n in self.vocab or e.name.startswith('random.')

    def conflict(self, e1, e2):
        p = self.es.purity
        n1, n2 = self.ename(e1), self.ename(e2)
        w1, w2, r1, r2 = p.may_write(n1), p.may_write(n2), p.may_read(n1), p.may_read(n2)
        if e1.name.startswith('random.') and e2.name.startswith('random.'):
            return True
        if w1 is None or w2 is None:
            return False
        if e1.recv is None or e1.recv is not e2.recv:
            return False
        return bool(w1 & (w2 | r2) or w2 & (w1 | r1))

    def order_matters(self, e1, e2):
        if self.item.opts.ordered:
            return True
        return e1.recv is not None and e1.recv is e2.recv

    def same_event(self, e, q, care):
        if len(e.args) != len(q.args) or len(e.kw) != len(q.kw) or e.name.rsplit('.', 1)[-1] != q.name.rsplit('.', 1)[-1]:
            return False
        if len(e.loops) != len(q.loops):
            return False
        c = self.c
        if (e.recv is None) != (q.recv is None):
            return False
        g = and_(care, e.guard) if not e.loops else e.guard
        def eq(x, y):
            if c.eq(x, y):
                return True
            return c.eq(restrict(x, g), restrict(y, g))
        for (n1, s1), (n2, s2) in zip(e.loops, q.loops):
            if not c.eq(n1, n2) or not c.eq(s1, s2):
                return False
        if not c.eq(e.guard, q.guard) and not (not e.loops and c.eq(restrict(e.guard, care), restrict(q.guard, care))):
            return False
        if e.recv is not None and not eq(e.recv, q.recv):
            return False
        if e.name == 'write' and not eq(e.args[0], q.args[0]):
            return False
        return all(eq(x, y) for x, y in zip(e.args, q.args)) and all(a[0] == b[0] and eq(a[1], b[1]) for a, b in zip(e.kw, q.kw))

    def eventdiff(self, e, q, care):
        c = self.c
        unk = None

        def merge(d):
            nonlocal unk
            if d is None:
                return None
            if d.kind == 'def':
                return d
            unk = unk or d
            return None
        if len(e.loops) != len(q.loops):
            ok = not any(c.unknown(n) for n, s in q.loops)
            return Diff('unk', num(len(e.loops)), num(len(q.loops)), 'loop nest')
        for (n1, s1), (n2, s2) in zip(e.loops, q.loops):
            d = c.diff(n1, n2)
            if d is not None:
                return Diff(d.kind, d.a, d.b, 'number of iterations ' + d.why, d.lits)
            d = merge(c.diff(s1, s2))
            if d:
                return d
        cg = care if not e.loops else TRUE
        for k, (n, _) in enumerate(e.loops):
            try:
                cg = and_(cg, cmp_('<', mk('ord', '#%d' % k), n))     # the iteration is one of the loop's
            except TooBig:
                pass
        d = c.decide(e.guard, q.guard, cg)
        if d is not None:
            d.why = 'performed under a different condition ' + d.why
            r = merge(d)
            if r:
                return r
        g = and_(e.guard, q.guard, cg)
        if e.recv is not None and q.recv is not None:
            d = c.decide(e.recv, q.recv, g)
            r = merge(d)
            if r:
                return r
        if len(e.args) != len(q.args) or len(e.kw) != len(q.kw):
            w = None
            for t in list(q.args) + [v for _, v in q.kw]:
                w = w or c.unknown(t)
            if any(t.op == 'star' for t in list(e.args) + list(q.args)):
                w = 'unpacked arguments'
            return Diff('unk' if w else 'def', num(len(e.args) + len(e.kw)), num(len(q.args) + len(q.kw)), 'number of arguments')
        for x, y in zip(e.args, q.args):
            r = merge(c.decide(x, y, g))
            if r:
                return r
        for (n1, x), (n2, y) in zip(e.kw, q.kw):
            if n1 != n2:
                return Diff('unk', x, y, 'keywords')
            r = merge(c.decide(x, y, g))
            if r:
                return r
        return unk

    def snapcmp(self, e, q):
        """state of the receiver visible to the callee"""
        if e.name == 'write':
            return
        reads = self.es.purity.may_read(self.ename(e))
        mods = self.es.purity.may_write(self.ename(e))
        if reads is not None and mods is not None:
            reads = ANYNAME if '*' in mods else reads | mods
        A = dict((self.lockey(k), (k, v)) for k, v in e.snap)
        B = dict((self.lockey(k), (k, v)) for k, v in q.snap)
        for k in sorted(set(A) | set(B), key=lambda t: t.key):
            n = self.locname(k)
            if reads is not None and n not in reads and not self.item.opts.ordered:
                continue
            if k in A and k in B:
                d = self.c.decide(A[k][1], B[k][1], e.guard)
            elif k in A:
                if any(x.op == 'ord' for x in walk(k)):
                    continue
                d = self.c.diff(A[k][1], A[k][0], e.guard)
            else:
                if any(x.op == 'ord' for x in walk(k)):
                    continue
                if n not in self.used:
                    continue
                d = self.c.diff(B[k][0], B[k][1], e.guard)
            if d is None and k in A and k in B:
                d = self.aliasing(A[k][1], B[k][1], e.guard)
            if d is not None and not (self.item.opts.ordered or n in self.item.opts.state or reads is not None and n in reads):
                d.kind = 'unk'
            if d is not None:
                d.why = 'state when %s is called: %s %s' % (self.ename(e), clip(show(k), 60), d.why)
            self.ob('state at call ' + self.ename(e), d)


class _Any(object):
    def __contains__(self, x):
        return True


ANYNAME = _Any()


def rel(e1, e2):
    k = 0
    for a, b in zip(e1.ids, e2.ids):
        if a != b:
            break
        k += 1
    return (k, e1.pos < e2.pos)


def relname(r):
    return ('first before second' if r[1] else 'second before first') + (' sharing %d loops' % r[0] if r[0] else '')


def guardlits(e):
    if e.guard is TRUE:
        return ()
    for ls, leaf in leaves(e.guard):
        if leaf is TRUE:
            return tuple(ls)
    return ()


def raise_types(tr):
    out = []
    for x in tr:
        if x[0] == 'raise':
            out.append(x[1] if isinstance(x[1], str) else str(x[1]))
        elif x[0] == 'if':
            out += raise_types(x[2]) + raise_types(x[3])
        elif x[0] == 'loop':
            out += raise_types(x[4])
    return out


def returns_nothing(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
            continue
        if isinstance(n, ast.Return) and n.value is not None:
            return False
    return True

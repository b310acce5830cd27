#!/usr/bin/env python3
"""Static checks of /repo.  usage: check.py <property> [--thorough] [-v] [--key K]"""
import sys
import os
import time
import json
import importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa import terms as TM
from sa.loader import Program, AnalysisBroken
from sa.spec import Checker, load_specs, load_also, load_vocab, HERE, clip


def known(prop):
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if not l or l.startswith('#') or l.startswith('fixed:'):
                    continue
                # known: property=<id> key=<key> :: <text>
                head, _, text = l.partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split()[1:])
                if d.get('property') == prop:
                    out[d['key']] = text
    return out


class Finding(object):
    def __init__(self, key, file, line, where, text):
        self.key, self.file, self.line, self.where, self.text = key.replace(' ', '_'), file, line, where, text


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.findings = []
        self.cov = {}
        self.undecided = []
        self.rules = []
        self.samples = []

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def finding(self, key, file, line, where, text):
        self.findings.append(Finding(key, file, line, where, text))


# size bound of the decision diagrams for references with many combinations of cases
LIMITS = {}


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    prop = args[0]
    keysel = args[1] if len(args) > 1 else None
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if tier == 'thorough':
        TM.LIMIT_MAX = 600000
    limit = TM.LIMIT_MAX
    t0 = time.time()
    try:
        prog = Program()
    except Exception as e:
        print('analysis error: %s' % e)
        return 2
    rep = Report(prop)
    for p, e in prog.errors:
        rep.finding('syntax:' + p, p, 0, p, 'does not parse: ' + e)
    vocab = load_vocab()
    ch = Checker(prog, vocab)
    sp = os.path.join(HERE, 'specs', prop + '.py')
    st = dict(proven=0, refuted=0, undecided=0, missing=0)
    if os.path.exists(sp):
        mod, items = load_specs(prog, sp, prop)
        items += load_also(prog, prop, items)
        for it in items:
            if keysel and keysel not in it.name and not any(keysel in t for t in it.targets):
                continue
            ch.spec_mod = it.mod
            t1 = time.time()
            TM.LIMIT_MAX = max(max([LIMITS[k] for k in LIMITS if any(k in t for t in it.targets)] or [0]), limit)
            for r in ch.check_item(it):
                st[r.status] += 1
                rep.count('functions_compared')
                rep.count('obligations', r.obligations)
                rep.count('obligations_proven', r.proven)
                if r.code is not None:
                    rep.count('functions_inlined', len(r.code.inlined))
                if r.status == 'refuted':
                    for what, d in r.diffs[:6]:
                        rep.finding('%s:%s:%s' % (prop, r.key(), what.split(' at line')[0]), r.func.file, r.func.line, r.func.qual, '%s: %s' % (what, d.text()))
                elif r.status == 'missing' and not it.name.startswith('_'):
                    rep.finding('%s:%s:missing' % (prop, r.key()), 'pybrain', 0, r.key(), 'operation does not exist: %s' % '; '.join(r.notes))
                elif r.status in ('undecided', 'missing'):
                    rep.undecided.append('%s: %s' % (r.key(), '; '.join(list(r.notes) + [clip('%s: %s' % (w, d.text()), 300) for w, d in r.diffs[:3]])))
                if verbose:
                    print('%-10s %s (%d/%d) %.1fs' % (r.status, r.key(), r.proven, r.obligations, time.time() - t1))
                    if r.status != 'proven':
                        for n in r.notes:
                            print('      note', n)
                        for w, d in r.diffs[:6]:
                            print('      ', d.kind, w[:150], '::', d.text()[:700])
                    if '-s' in sys.argv and r.spec is not None:
                        print('--- reference')
                        print('\n'.join(l[:500] for l in r.spec.show().split('\n')[:60]))
                        print('--- code')
                        print('\n'.join(l[:500] for l in r.code.show().split('\n')[:60]))
    kn = known(prop)
    bad = []
    seen = set()
    for f in rep.findings:
        hit = [k for k in kn if f.key == k or f.key.startswith(k + ':')]
        if hit:
            if hit[0] not in seen:
                seen.add(hit[0])
                print('KNOWN-FINDING: property=%s %s' % (prop, kn[hit[0]]))
        else:
            bad.append(f)
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    rp = os.path.join(evd, prop + '.violations.txt')
    if bad:
        with open(rp, 'w') as f:
            for b in bad:
                f.write('%s:%s %s\n  key %s\n  %s\n' % (b.file, b.line, b.where, b.key, b.text))
        for b in bad[:12]:
            print('%s:%s %s: %s' % (b.file, b.line, b.where, clip(b.text, 700)))
            if verbose:
                print('     key', b.key)
    elif os.path.exists(rp):
        os.remove(rp)
    cov = dict(rep.cov)
    cov['specs'] = st
    cov['undecided'] = len(rep.undecided)
    cov['undecided_list'] = rep.undecided[:40]
    cov['modules_loaded'] = len(prog.modules)
    cov['classes_loaded'] = len(prog.classes)
    cov['rules'] = rep.rules
    cov['known_findings_hit'] = len(seen)
    cov['explanation'] = ('Every listed function of the current /repo source was parsed, its calls resolved and its helpers expanded, and reduced by '
                          'gated value numbering to a guarded effect summary that was compared, obligation by obligation, with the summary of the '
                          'reference in specs/%s.py. Nothing was executed.' % prop)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other', coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(bad),
              assumptions=['the summary engine models numpy/scipy array operations by their documented meaning',
                           'distinct attribute paths do not alias unless the analysed code creates the alias'])
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d functions compared (%s), %d obligations, %d undecided, %.1fs' % (
        prop, rep.cov.get('functions_compared', 0), ', '.join('%s %d' % kv for kv in sorted(st.items())), rep.cov.get('obligations', 0),
        len(rep.undecided), time.time() - t0))
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())

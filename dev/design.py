"""writes DESIGN.md: hand-written texts, counts from specs/, the seed table from the result of dev/seedcheck.sh (argument 1)"""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(R)
props = [json.loads(l) for l in open('properties.jsonl')]
props.sort(key=lambda d: d['id'])
HOW = {
'P01': 'Value of every element written to outbuf/inerr by _forwardImplementation/_backwardImplementation, as a formula of the input buffers, state and parameters, for a symbolic dimension. Slices become index ranges, so a gate mixed up with another, a missing peephole or a wrong time offset changes a normal form. The adjoint relation is encoded in the references (derived by hand from the forward formulas), not re-derived on each run.',
'P02': 'For each connection class: value added to the output buffer / input error / derivative buffer as a function of slices, weights and buffers, and that buffers are accumulated, not overwritten. also.json adds ModuleSlice, which every connection uses.',
'P03': 'Order and guard of every activate/forward/backward/reset event of a network pass, topological sort with its cycle check, recurrent time steps, and the offsets used by each event. Loops over modules and connections are binders over the sorted collections; the relation between the sort and the collections is part of the references.',
'P04': 'The running offset of every slice that Network._setParameters hands to containers, which containers are counted, owner/ownership writes, derivative vectors and randomisation. Loop-carried offsets are folds compared by their step.',
'P05': 'Every buffer reset, growth and shift: which buffers, from which index, with which length. Growth preserves old rows (the written ranges are part of the normal form).',
'P07': 'Which attributes a copy shares and which it duplicates: the heap model separates objects by path, so a shared list or array that the reference copies is a different value.',
'P08': 'Mask/parameter relation after every operation (set, mutate, randomise, switch), including the module and topology variants.',
'P10': 'The sequence of addModule/addConnection calls with their constructor arguments, for all layer lists (loops over layers as binders) and all index tuples of meshes.',
'P11': 'Locations written by append/link/clear/resize/remove in every field array and the end marker; guards of the length checks and raised exceptions.',
'P12': 'Returned rows and slices up to the end marker, iteration order, index ranges and current-sample bookkeeping.',
'P13': 'Row ranges of sequences, the permutation used by splits and batches, window start/stop/stride arithmetic.',
'P14': 'Label histogram and field conversions as element-wise maps; the loop that re-assembles splits and class selections.',
'P15': 'Which attributes are written for which construct and read back into the same constructor arguments; parameter text conversion; matrices written as XML rows. Reader and writer are compared with references that were checked to be mutually inverse by hand.',
'P16': 'Format dispatch, file modes, argument dictionaries and naming; the set of attributes pickled and restored.',
'P17': 'For every trainer: samples consumed per epoch, the error and gradient passed to the network, when the weights move, what is returned and recorded.',
'P18': 'The training loop of trainUntilConvergence with its stopping rule, the snapshot taken at the best validation error and the one restored.',
'P19': 'GradientDescent (plain, momentum, decay, rprop): the new values as formulas of old values, gradient and state.',
'P20': 'Best-so-far bookkeeping: guard of every update and the pair (evaluable, evaluation) written together.',
'P21': 'Sign handling: every evaluation passes through the same flip, and ranks/comparisons are in the flipped direction.',
'P22': 'Stop conditions as boolean functions over the counters, compared as decision diagrams over linear atoms (so `>=` against `>` is a difference).',
'P23': 'Population sizes, elites, parents and clones per generation, history of populations, velocity/position updates of PSO.',
'P24': 'Dominance as a boolean function of the two objective vectors, front peeling, crowding distance and the truncation of the last front.',
'P25': 'CMA-ES, NES variants, FEM, VES, importance mixing: each update of mean, covariance factor, step size and evolution path as a formula.',
'P26': 'Pairs of a perturbation and its evaluation, sign and scale of the estimated gradient, baseline and step sizes; ranking functions.',
'P27': 'Which opponents are played, how scores are accumulated and averaged, who is a parent, hall of fame and parasites.',
'P28': 'Order of observe/act/reward events and the guards that protect the order in agents and experiments; what is logged and when.',
'P29': 'Temporal-difference updates, traces, action-value tables and the state carried between calls.',
'P30': 'Exploration noise and the parameters of policy-gradient estimators: baselines, Fisher matrix, log-likelihood derivatives of each explorer.',
'P31': 'Linear systems set up for policy evaluation, greedy policies, randomised policies, transition collapsing, LSTD statistics.',
'P32': 'Scaling of sensors and actions in both directions, reset and discounting of rewards, evaluators over tasks.',
'P33': 'Board updates, captures, wins, legal moves, turn-taking; scores of tournaments and tasks.',
'P34': 'Closed formulas of benchmark functions and wrappers; all BBOB set-ups; objectives, bounds, feasibility and violation of multi-objective benchmarks.',
'P35': 'Hidden/visible activations, gradients of both phases and their combination, the layer-wise training of deep belief networks.',
'P36': 'Element pairs that enter each measure, resets, sequence ends, k-fold index sets.',
'P37': 'Helper functions as formulas or as folds over their arguments.',
'P39': 'State transitions, sensors, rewards and ends of episodes of the bundled simulations as guarded formulas. The Runge-Kutta library call is opaque. AcrobotTask.DoAction (four unrolled steps with four bounds each) and ShipSteeringEnvironment.step have too many case combinations for one diagram and are compared with named case distinctions (section on the engine).',
}
SKIP = {
'P10': 'BidirectionalNetwork names and buildNetwork(hiddenclass=...) have defects listed below and are left out.',
'P17': 'RPropMinusTrainer is compared; IRpropPlus is broken upstream and left out.',
'P29': 'Online Q/SARSA never update (finding), LinearFA online mode crosses episodes (finding): these paths are left out.',
'P34': 'AttractiveSectorFunction (and bbob_f6), Lennard-Jones and ConstOsy.g deviate from their publications (findings) and are left out.',
'P39': 'DoublePoleEnvironment has no _derivs of its own; GoNorthwardTask is compared as it is.',
}
def specinfo(i):
    p = 'specs/%s.py' % i
    if not os.path.exists(p):
        return 0, []
    s = open(p).read()
    ts = re.findall(r"@target\((.*?)\)", s)
    mods = set()
    for t in re.findall(r"'pybrain\.([\w.]+)'", ' '.join(ts)):
        parts = t.split('.')
        path = 'pybrain'
        keep = []
        for x in parts:
            path += '/' + x
            if os.path.isdir('/repo/' + path) or os.path.exists('/repo/' + path + '.py'):
                keep.append(x)
            else:
                break
        mods.add('.'.join(keep))
    ev = 'evidence/%s.json' % i
    return len(re.findall(r'^\s*def ', s, re.M)), sorted(mods)
out = [open('dev/design_head.md').read().rstrip(), '']
out.append('## Properties\n')
for d in props:
    i = d['id']
    out.append('### %s %s\n' % (i, d['title']))
    n, mods = specinfo(i)
    if not n:
        na = [x for x in json.load(open('MANIFEST.json'))['not_applicable'] if x.get('property', x.get('id', x.get('property_id'))) == i]
        out.append('Not applicable: %s\n' % (na[0].get('reason', '') if na else ''))
        continue
    out.append('%s' % HOW.get(i, ''))
    if i in SKIP:
        out.append('Left out: ' + SKIP[i])
    out.append('Scope: %d reference functions in `specs/%s.py` for %s.\n' % (n, i, ', '.join('`%s`' % m for m in mods)))
out.append('## Planted bugs and the checks that catch them\n')
out.append('Each lives in `seeded/<id>/`; "caught" means exit 1 and a VIOLATION line of the property in a scratch copy with only that patch.')
out.append('Quick runs are used. A miss is an obligation that stays undecided (never a proof of the patched code).\n')
res = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        m = re.match(r'(\S+) (P\d+) rc=(\d+)', l)
        if m:
            res[m.group(1)] = m.group(3)
    json.dump(res, open('dev/seedresults.json', 'w'), indent=0, sort_keys=True)
elif os.path.exists('dev/seedresults.json'):
    res = json.load(open('dev/seedresults.json'))
out.append('| seed | property | what it breaks | caught |\n|---|---|---|---|')
for s in sorted(os.listdir('seeded'), key=lambda s: (json.load(open('seeded/%s/meta.json' % s))['property'], s)):
    m = json.load(open('seeded/%s/meta.json' % s))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/')[:150], {'1': 'yes', '0': 'no'}.get(res.get(s), '?')))
out.append('')
out.append(open('dev/design_tail.md').read())
open('DESIGN.md', 'w').write('\n'.join(out))

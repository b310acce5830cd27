seed('masked-zeros-assignment', 'P08', [('structure/evolvables/maskedparameters.py', '''                if self.returnZeros:
                    self.maskableParams[i] = x[i]
                else:
                    self.maskableParams[i] = x[paramcount]
                    paramcount += 1
''', '''                self.maskableParams[i] = x[paramcount]
                paramcount += 1
''')], '''
from numpy import array, allclose
from pybrain.structure import LinearLayer, FullConnection, FeedForwardNetwork
from pybrain.structure.evolvables.maskedparameters import MaskedParameters
n = FeedForwardNetwork()
a, b = LinearLayer(4, name='a'), LinearLayer(1, name='b')
n.addInputModule(a); n.addOutputModule(b); n.addConnection(FullConnection(a, b)); n.sortModules()
m = MaskedParameters(n, returnZeros=True)
m.mask[:] = [False, True, False, True]
m._applyMask()
m._setParameters(array([1., 2., 3., 4.]))
assert allclose(m.params, [0, 2, 0, 4]), m.params
''', 'returnZeros with a mask that disables an early parameter', 'a full-length vector is read from its head instead of by position')

seed('masked-complexity-excess', 'P08', [('structure/evolvables/maskedparameters.py', '''        for i in range(tooMany):
            while True:
                ind = int(random()*self.pcontainer.paramdim)
                if self.mask[ind]:
                    self.mask[ind] = False
                    break
''', '''        for i in range(tooMany):
            ind = int(random()*self.pcontainer.paramdim)
            self.mask[ind] = False
''')], '''
import random
from pybrain.structure import LinearLayer, FullConnection, FeedForwardNetwork
from pybrain.structure.evolvables.maskedparameters import MaskedParameters
n = FeedForwardNetwork()
a, b = LinearLayer(10, name='a'), LinearLayer(3, name='b')
n.addInputModule(a); n.addOutputModule(b); n.addConnection(FullConnection(a, b)); n.sortModules()
random.seed(3)
m = MaskedParameters(n, maxComplexity=8, maskFlipProbability=0.6)
for i in range(60):
    m.topologyMutate()
    assert sum(m.mask) <= 8, sum(m.mask)
''', 'a topology mutation that turns on more parameters than allowed', 'the mask exceeds its maximal complexity')

seed('class-split-importance', 'P14', [('datasets/classification.py', '''            rightDs.endmarker[field] = len(rightIndices)
''', '''            rightDs.endmarker[field] = len(self) - len(leftDs)
''')], '''
from pybrain.datasets import ClassificationDataSet
d = ClassificationDataSet(1, 1, nb_classes=2)
for i in range(5):
    d.addSample([i], [i % 2])
d._convertToOneOfMany()
l, r = d.splitByClass(0)
assert len(l) == 3 and len(r) == 2, (len(l), len(r))
d.link = []
l, r = d.splitByClass(0)
assert r.endmarker['input'] == 2, r.endmarker
''', 'a dataset whose fields are not linked', 'the remaining samples get the wrong length')

seed('stratified-relative-validation', 'P14', [('datasets/classification.py', '''            nTst, nVal = (int(testfrac * nCls), int(evalfrac * nCls))
''', '''            nTst = int(testfrac * nCls)
            nVal = int(evalfrac * (nCls - nTst))
''')], '''
from pybrain.datasets import SequenceClassificationDataSet
d = SequenceClassificationDataSet(1, 1, nb_classes=2)
for c in (0, 1):
    for s in range(10):
        d.newSequence()
        for i in range(2):
            d.addSample([s], [c])
d.setField('class', d.getField('target')[:len(d)])
trn, tst, val = d.stratifiedSplit(testfrac=0.5, evalfrac=0.4)
assert (trn.getNumSequences(), tst.getNumSequences(), val.getNumSequences()) == (2, 10, 8), (trn.getNumSequences(), tst.getNumSequences(), val.getNumSequences())
''', 'both a test and a validation fraction', 'the validation fraction is taken of what is left, not of the total')

seed('onehot-bounds-offset', 'P14', [('datasets/classification.py', '''            newtarg[i, int(oldtarg[i])] = bounds[1]
''', '''            newtarg[i, int(oldtarg[i])] += bounds[1]
''')], '''
from pybrain.datasets import ClassificationDataSet
d = ClassificationDataSet(1, 1, nb_classes=2)
d.addSample([0], [0]); d.addSample([1], [1])
d._convertToOneOfMany(bounds=(-1, 1))
assert d['target'].tolist() == [[1, -1], [-1, 1]], d['target']
''', 'bounds whose lower value is not zero', 'members get the sum of both bounds')

seed('converge-last-epoch-weights', 'P18', [('supervised/trainers/backprop.py', '''            if maxEpochs != None and epochs >= maxEpochs:
                self.module.params[:] = bestweights
                break
''', '''            if maxEpochs != None and epochs >= maxEpochs:
                break
'''), ('supervised/trainers/backprop.py', '''                if min(new) > max(old):
                    self.module.params[:] = bestweights
                    break
                lastnew = round(new[-1], convergence_threshold)
                if sum(round(y, convergence_threshold) - lastnew for y in new) == 0:
                    self.module.params[:] = bestweights
                    break
''', '''                if min(new) > max(old):
                    self.module.params[:] = bestweights
                    break
                lastnew = round(new[-1], convergence_threshold)
                if sum(round(y, convergence_threshold) - lastnew for y in new) == 0:
                    self.module.params[:] = bestweights
                    break
''')][:1], '''
from pybrain.tools.shortcuts import buildNetwork
from pybrain.supervised.trainers import BackpropTrainer
from pybrain.datasets import SupervisedDataSet
n = buildNetwork(1, 1, bias=False)
d = SupervisedDataSet(1, 1)
d.addSample([1], [1]); d.addSample([2], [2])
v = SupervisedDataSet(1, 1); v.addSample([1], [0.5])
n.params[:] = [0.]
t = BackpropTrainer(n, d, learningrate=0.1)
errs = t.trainUntilConvergence(maxEpochs=5, trainingData=d, validationData=v)
assert abs(t.testOnData(v) - min(t.validationErrors[1:])) < 1e-9
''', 'training stops at maxEpochs after the validation error rose again', 'the last instead of the best weights are kept')

seed('converge-training-slice', 'P18', [('supervised/trainers/backprop.py', '''                old = self.validationErrors[-continueEpochs * 2:-continueEpochs]
''', '''                old = self.validationErrors[:-continueEpochs]
''')], '''
from pybrain.tools.shortcuts import buildNetwork
from pybrain.supervised.trainers import BackpropTrainer
from pybrain.datasets import SupervisedDataSet
class T(BackpropTrainer):
    errs = [9., 8., 7., 1., 1., 2., 2.5, 3., 4., 5., 6., 6.]
    n = 0
    def train(self):
        return 0.
    def testOnData(self, d=None, verbose=False):
        self.n += 1
        return self.errs[self.n - 1]
n = buildNetwork(1, 1)
d = SupervisedDataSet(1, 1); d.addSample([1], [1])
t = T(n, d)
t.trainUntilConvergence(trainingData=d, validationData=d, continueEpochs=2, maxEpochs=20)
assert t.n == 7, t.n
''', 'a validation error that starts high, falls and rises again', 'the stopping test compares with the whole history and stops later')

seed('backprop-importance-gradient', 'P17', [('supervised/trainers/backprop.py', '''                error += 0.5 * dot(importance, outerr ** 2)
                ponderation += sum(importance)
                self.module.backActivate(outerr * importance)
''', '''                outerr = outerr * importance
                error += 0.5 * dot(outerr, outerr)
                ponderation += sum(importance)
                self.module.backActivate(outerr)
''')], '''
from pybrain.tools.shortcuts import buildNetwork
from pybrain.supervised.trainers import BackpropTrainer
from pybrain.datasets import ImportanceDataSet
n = buildNetwork(1, 1, bias=False)
n.params[:] = [0.]
d = ImportanceDataSet(1, 1)
d.newSequence(); d.addSample([1], [1], [0.5])
t = BackpropTrainer(n, d)
e = t.train()
assert abs(e - 0.5) < 1e-9, e
''', 'an importance that is neither zero nor one', 'the reported error weights by the squared importance')

seed('backprop-decay-after-reset', 'P17', [('supervised/trainers/backprop.py', '''        if self.batchlearning:
            gradient = self.module.derivs - self.weightdecay * self.module.params
            self.module._setParameters(self.descent(gradient))
''', '''        if self.batchlearning:
            gradient = self.module.derivs / len(shuffledSequences) - self.weightdecay * self.module.params
            self.module._setParameters(self.descent(gradient))
''')], '''
from pybrain.tools.shortcuts import buildNetwork
from pybrain.supervised.trainers import BackpropTrainer
from pybrain.datasets import SupervisedDataSet
n = buildNetwork(1, 1, bias=False)
n.params[:] = [0.]
d = SupervisedDataSet(1, 1)
d.addSample([1], [1]); d.addSample([1], [1])
BackpropTrainer(n, d, learningrate=0.1, batchlearning=True).train()
assert abs(n.params[0] - 0.2) < 1e-9, n.params
''', 'batch learning with more than one sequence', 'the batch gradient is averaged instead of summed')

seed('rprop-clip-before-decrease', 'P19', [('auxiliary/gradientdescent.py', '''            rprop_theta[idx] *= self.etaminus
            gradient_arr[idx] = 0

            # upper and lower bound for both matrices
            rprop_theta = rprop_theta.clip(min=self.deltamin, max=self.deltamax)
''', '''            rprop_theta = rprop_theta.clip(min=self.deltamin, max=self.deltamax)
            rprop_theta[idx] *= self.etaminus
            gradient_arr[idx] = 0
''')], '''
from numpy import array
from pybrain.auxiliary import GradientDescent
g = GradientDescent()
g.rprop = True
g.init(array([0.]))
for i in range(20):
    g(array([1. if i % 2 else -1.]))
    assert g.rprop_theta[0] >= g.deltamin - 1e-12, g.rprop_theta
''', 'a gradient that keeps switching direction', 'the step width falls below its minimum')

seed('momentum-decays-alpha-first', 'P19', [('auxiliary/gradientdescent.py', '''            self.momentumvector += self.alpha * gradient_arr
            self.alpha *= self.alphadecay
''', '''            self.alpha *= self.alphadecay
            self.momentumvector += self.alpha * gradient_arr
''')], '''
from numpy import array
from pybrain.auxiliary import GradientDescent
g = GradientDescent()
g.alpha = 0.1; g.alphadecay = 0.5
g.init(array([0.]))
assert abs(g(array([1.]))[0] - 0.1) < 1e-12, g.values
''', 'a learning rate decay', 'the first update already uses the decayed rate')

seed('pgpe-one-sided', 'P26', [('optimization/finitedifference/pgpe.py', '''        reward2 = self._oneEvaluation(self.current - deltas)
''', '''        reward2 = self._oneEvaluation(self.current - abs(deltas))
''')], '''
from numpy import array, allclose
from pybrain.optimization import PGPE
seen = []
def f(x):
    seen.append(array(x)); return -float((x ** 2).sum())
p = PGPE(f, array([1., 1., 1.]), maxEvaluations=2)
c = array(p.current)
for i in range(8):
    seen[:] = []
    c = array(p.current)
    p._learnStep()
    assert allclose(seen[0] + seen[1], 2 * c), (seen, c)
''', 'a perturbation with a negative component', 'the two evaluations are no longer mirrored')

seed('elo-sequential-expectation', 'P33', [('rl/experiments/tournament.py', '''                est = len(outcomes) / (1. + 10 ** ((elos[a2] - elos[a1]) / 400.))
''', '''                est = len(self.results[(a1, a2)]) / (1. + 10 ** ((elos[a2] - elos[a1]) / 400.)) * 2
''')], '''
from pybrain.rl.experiments.tournament import Tournament
from pybrain.rl.environments.twoplayergames import CaptureGame
class A(object):
    def __init__(self, n): self.name = n
a, b = A('a'), A('b')
t = Tournament(CaptureGame(3), [a, b])
t.results = {(a, b): [a, a, a], (b, a): [b]}
e = t.eloScore()
assert abs(e[a] - (1500 + 32 * (3 - 2))) < 1e-9, e
''', 'couples that played an unequal number of games in both orders', 'the expected score does not count the games actually played')

seed('elo-loser-zero', 'P33', [('rl/experiments/tournament.py', '''                    elif r == self.env.DRAW:
                        s += 0.5
''', '''                    elif r != a2:
                        s += 1. / len(outcomes)
''')], '''
from pybrain.rl.experiments.tournament import Tournament
from pybrain.rl.environments.twoplayergames import CaptureGame
class A(object):
    def __init__(self, n): self.name = n
a, b = A('a'), A('b')
t = Tournament(CaptureGame(3), [a, b])
D = t.env.DRAW
t.results = {(a, b): [D, D, D], (b, a): [a]}
e = t.eloScore()
assert abs(e[a] - (1500 + 32 * (2.5 - 2))) < 1e-9, e
''', 'a draw in a series that is not of length two', 'a draw does not count one half')

seed('queue-removes-newest', 'P28', [('rl/experiments/queued.py', '''        self.agent.history.removeSequence(0)
        
        # execute one new episode
        self.doEpisodes(1)
''', '''        self.doEpisodes(1)
        if self.agent.history.getNumSequences() > 1:
            self.agent.history.removeSequence(1)
''')], '''
from pybrain.rl.experiments.queued import QueuedExperiment
log = []
class H(object):
    def __init__(self): self.s = []
    def removeSequence(self, i): del self.s[i]
    def getNumSequences(self): return len(self.s)
class A(object):
    def __init__(self): self.history = H()
    def reset(self): self.history.s = []
    def learn(self): log.append(list(self.history.s))
class Q(QueuedExperiment):
    k = 0
    def __init__(self): self.agent = A()
    def doEpisodes(self, n):
        for i in range(n):
            self.agent.history.s.append(self.k); self.k += 1
q = Q(); q.run(3, 3)
assert log == [[0, 1, 2], [1, 2, 3], [2, 3, 4]], log
''', 'more than one learning cycle', 'the oldest episode is never discarded')

seed('discount-first-sample', 'P32', [('rl/environments/episodic.py', '''            self.cumreward += power(self.discount, self.samples) * self.getReward()
''', '''            self.cumreward = self.discount * (self.cumreward + self.getReward())
''')], '''
from pybrain.rl.environments.episodic import EpisodicTask
class E(object):
    def performAction(self, a): pass
    def reset(self): pass
class T(EpisodicTask):
    r = 0
    def getReward(self):
        self.r += 1; return self.r
t = T(E()); t.discount = 0.5
for i in range(3): t.performAction(0)
assert abs(t.getTotalReward() - (0.5 + 0.5 + 0.375)) < 1e-12, t.getTotalReward()
''', 'a discount and an episode of several steps', 'early rewards are discounted more than late ones')

seed('denormalize-clips-action', 'P32', [('rl/environments/task.py', '''                if self.clipping:
                    r = clip(r, l[0], l[1])
''', '''                if self.clipping:
                    r = clip(r, l[0], max(l[1], r))
''')], '''
from pybrain.rl.environments.task import Task
class E(object): pass
t = Task(E()); t.setScaling(None, [(-2, 2)])
assert t.denormalize([3.])[0] == 2, t.denormalize([3.])
assert t.denormalize([-3.])[0] == -2
''', 'an action above one', 'actions above the upper limit are not clipped')

seed('validator-importance-order', 'P36', [('tools/validation.py', '''            importance = importance.flatten()

        # flatten structures
        output = output.flatten()
        target = target.flatten()
''', '''            importance = importance.T.flatten()

        # flatten structures
        output = output.flatten()
        target = target.flatten()
''')], '''
from numpy import array
from pybrain.tools.validation import Validator
o = array([[1., 2.], [3., 4.]]); t = array([[0., 0.], [0., 0.]]); i = array([[1., 0.], [2., 0.]])
assert abs(Validator.MSE(o, t, i) - (1 + 18) / 3.) < 1e-12, Validator.MSE(o, t, i)
''', 'importances of more than one column', 'each squared error is weighted by the importance of another one')

seed('crossval-shared-trainer', 'P36', [('tools/validation.py', '''            trainer = copy.deepcopy(self._trainer)
''', '''            trainer = copy.copy(self._trainer)
''')], '''
from numpy import array
from pybrain.tools.validation import CrossValidator
from pybrain.datasets import SupervisedDataSet
class M(object):
    seen = 0
class T(object):
    def __init__(self): self.module = M()
    def setData(self, d): self.ds = d
    def train(self): self.module.seen += len(self.ds)
d = SupervisedDataSet(1, 1)
for i in range(6): d.addSample([i], [i])
t = T()
r = CrossValidator(t, d, n_folds=3, valfunc=lambda m, ds: m.seen).validate()
assert r == 4, r
''', 'more than one fold', 'all folds train the same module')

seed('sequence-ends-last', 'P36', [('tools/validation.py', '''        if j in ends:
''', '''        if j in ends[:-1]:
''')], '''
from numpy import array
from pybrain.tools.validation import testOnSequenceData
from pybrain.datasets import SequentialDataSet
class M(object):
    def reset(self): pass
    def activate(self, x): return array(x)
d = SequentialDataSet(2, 2)
for k in ([1., 0.], [0., 1.]):
    d.newSequence()
    d.addSample([1., 0.], k); d.addSample([1., 0.], k)
assert testOnSequenceData(M(), d) == 0.5, testOnSequenceData(M(), d)
''', 'a dataset of several sequences', 'the last sequence is left out of the score')

seed('spsa-perturbation-epsilon', 'P26', [('optimization/finitedifference/spsa.py', """        deltas = (random.randint(0, 2, self.numParameters) * 2 - 1) * self.epsilon
""", """        deltas = random.randint(-1, 2, self.numParameters) * self.epsilon
""")], """
from numpy import array
from pybrain.optimization import SimpleSPSA
p = SimpleSPSA(lambda x: -float((x ** 2).sum()), array([1., 1., 1.]), maxEvaluations=2)
for i in range(50):
    assert abs(p.perturbation()).min() > 0
""", 'a perturbation that leaves out a parameter', 'the update divides by a zero perturbation')

seed('soft-constraint-sign', 'P34', [('rl/environments/functions/transformations.py', """            if not self.toBeMinimized:
                penalizationFactor *= -1
            def scf(x):
                if isinstance(x, ParameterContainer):
                    x = x.params
                return basef.f(x) + penalize(x, distance) * penalizationFactor
""", """            def scf(x):
                if isinstance(x, ParameterContainer):
                    x = x.params
                return basef.f(x) + penalize(x, distance) * penalizationFactor
""")], """
from numpy import array
from pybrain.rl.environments.functions.function import FunctionEnvironment
from pybrain.rl.environments.functions.transformations import SoftConstrainedFunction
class F(FunctionEnvironment):
    toBeMinimized = False
    penalized = False
    def f(self, x): return 0.
assert SoftConstrainedFunction(F(2)).f(array([7., 0.])) == -4
""", 'a function to be maximized', 'leaving the box is rewarded')

seed('penalize-signed', 'P34', [('rl/environments/functions/transformations.py', """    ax = abs(x)
    tmp = clip(ax-distance, 0, ax.max())
""", """    tmp = clip(x-distance, 0, abs(x).max())
""")], """
from numpy import array
from pybrain.rl.environments.functions.transformations import penalize
assert penalize(array([7., 0.])) == 4 and penalize(array([-7., 0.])) == 4
""", 'a point that leaves the box on the negative side', 'it is not penalized')

seed('rotate-optimum', 'P34', [('rl/environments/functions/transformations.py', """        self.xopt = dot(inv(self._M), self.xopt)
""", """        self.xopt = dot(self._M, self.xopt)
""")], """
from numpy import array, allclose
from pybrain.rl.environments.functions.function import FunctionEnvironment
from pybrain.rl.environments.functions.transformations import RotateFunction
class F(FunctionEnvironment):
    def f(self, x): return float(((x - array([1., 2.])) ** 2).sum())
f = F(2, array([1., 2.]))
M = array([[0., 1.], [-1., 0.]])
r = RotateFunction(f, M)
M2 = array([[2., 0.], [0., 4.]])
r = RotateFunction(f, M2)
assert allclose(r.xopt, [0.5, 0.5]), r.xopt
""", 'a rotation matrix and an optimum away from the origin', 'the announced optimum is not the optimum of the rotated function')

seed('capture-merge-liberties', 'P33', [('rl/environments/twoplayergames/capturegame.py', """                    self.liberties[self.groups[n]].update(freen)
                    self.liberties[self.groups[n]].difference_update([pos])
                    merge = True
""", """                    self.liberties[self.groups[n]].difference_update([pos])
                    if len(freen) > 1:
                        self.liberties[self.groups[n]].update(freen)
                    merge = True
""")], """
from pybrain.rl.environments.twoplayergames import CaptureGame
g = CaptureGame(3)
for c, p in ((1, (0, 0)), (-1, (2, 2)), (1, (0, 1)), (-1, (1, 2)), (1, (0, 2))):
    assert g.doMove(c, p)
assert g.getLiberties((0, 2)) == 2, g.getLiberties((0, 2))
g = CaptureGame(3)
g._setStone(1, (0, 0)); g._setStone(-1, (1, 1)); g._setStone(1, (0, 1))
assert g.getLiberties((0, 0)) == 2, g.getLiberties((0, 0))
""", 'a stone with a single free neighbour that joins a group', 'the group does not gain that liberty')

seed('capture-group-two-merges', 'P33', [('rl/environments/twoplayergames/capturegame.py', """                        self.liberties[newg].update(self.liberties[oldg])
                        self.liberties[newg].difference_update([pos])
""", """                        self.liberties[newg].difference_update([pos])
                        self.liberties[newg].update(self.liberties[oldg])
""")], """
from pybrain.rl.environments.twoplayergames import CaptureGame
g = CaptureGame(5)
g._setStone(1, (0, 0)); g._setStone(1, (0, 2)); g._setStone(1, (0, 1))
assert g.getLiberties((0, 1)) == 4, g.getLiberties((0, 1))
""", 'a stone that connects two separate groups', 'the position of the stone remains as a liberty of the merged group')

seed('capture-suicide-own-colour', 'P33', [('rl/environments/twoplayergames/capturegame.py', """                if len(self.liberties[self.groups[n]]) > 1:
                    return False
""", """                if len(self.liberties[self.groups[n]]) > 0:
                    return False
""")], """
from pybrain.rl.environments.twoplayergames import CaptureGame
g = CaptureGame(3, False)
g._setStone(1, (0, 0)); g._setStone(-1, (1, 0)); g._setStone(-1, (1, 1)); g._setStone(-1, (0, 2))
assert not g.isLegal(1, (0, 1))
""", 'a move that fills the last liberty of the own group', 'it is not recognised as suicide')

seed('nsga-last-front', 'P24', [('optimization/populationbased/multiobjective/nsga2.py', """            front = sorted(front, key=lambda x: crowd_dist[x], reverse=True)
            front = set(front[:remaining])
""", """            front = sorted(front, key=lambda x: crowd_dist[x])
            front = set(front[-remaining - 1:])
""")], """
from pybrain.optimization.populationbased.multiobjective.nsga2 import nsga2select
pop = [(float(i),) for i in range(7)]
fit = dict((p, (p[0], 10 - p[0])) for p in pop)
assert len(nsga2select(pop, fit, 3)) == 3
""", 'a front that does not fit into the remaining places', 'one survivor too many')

seed('front-merge-midpoint', 'P24', [('tools/nondominated.py', """        part1 = list(_non_dominated_front_merge_arr(items[:l // 2], key, allowequality))
        part2 = list(_non_dominated_front_merge_arr(items[l // 2:], key, allowequality))
""", """        part1 = list(_non_dominated_front_merge_arr(items[:l // 2], key, allowequality))
        part2 = list(_non_dominated_front_merge_arr(items[l // 2 + 1:], key, allowequality))
""")], """
from pybrain.tools.nondominated import non_dominated_front
items = [(float(i), float(200 - i)) for i in range(150)]
assert len(non_dominated_front(items)) == 150
""", 'more than a hundred items', 'the middle item is lost')

seed('crowding-boundaries', 'P24', [('tools/nondominated.py', """        # normalization between 0 and 1.
        normalization = float(fitnesses[individuals[0]][i] - fitnesses[individuals[-1]][i])
        # Make sure the boundary points are always selected.
        distances[individuals[0]] = 1e100
        distances[individuals[-1]] = 1e100
        if normalization == 0:
            continue
""", """        # normalization between 0 and 1.
        normalization = float(fitnesses[individuals[0]][i] - fitnesses[individuals[-1]][i])
        if normalization == 0:
            continue
        # Make sure the boundary points are always selected.
        distances[individuals[0]] = 1e100
        distances[individuals[-1]] = 1e100
""")], """
from pybrain.tools.nondominated import crowding_distance
i = [(0,), (1,), (2,)]
f = {(0,): (1., 1.), (1,): (1., 1.), (2,): (1., 1.)}
d = crowding_distance(i, f)
assert d[(0,)] == 1e100 and d[(2,)] == 1e100
""", 'individuals with equal fitness in every objective', 'the boundary individuals lose their guarantee')

seed('slice-of-slice-offset', 'P02', [('structure/moduleslice.py', """            self.outOffset = outSliceFrom + base.outOffset
            if inSliceTo == None:
                inSliceTo = base.indim
""", """            self.outOffset = outSliceFrom + base.inOffset
            if inSliceTo == None:
                inSliceTo = base.indim
""")], """
from pybrain.structure import LinearLayer
from pybrain.structure.moduleslice import ModuleSlice
s = ModuleSlice(ModuleSlice(LinearLayer(6), 0, 4, 2, 6), outSliceFrom=1)
assert s.outOffset == 3, s.outOffset
""", 'a slice of a slice with different input and output offsets', 'the outputs are read from the wrong place')

seed('ranking-descending', 'P37', [('tools/functions.py', """    l = sorted(list(enumerate(l)), key=lambda a: a[1][0])
    return array([kv[0] for kv in l])
""", """    return array([kv[0] for kv in l])
""")], """
from pybrain.tools.functions import ranking
assert list(ranking([3., 1., 2.])) == [2, 0, 1], ranking([3., 1., 2.])
assert list(ranking([2., 3., 1.])) == [1, 2, 0], ranking([2., 3., 1.])
""", 'values whose sorting permutation is not its own inverse', 'the positions instead of the ranks are returned')

seed('pdf-half-dimension', 'P37', [('tools/functions.py', """    return exp(-0.5 * dot(z, z)) / (power(2.0 * pi, dim / 2.) * detFactorSigma)
""", """    return exp(-0.5 * dot(z, z)) / (power(2.0 * pi, dim // 2) * detFactorSigma)
""")], """
from numpy import array, exp, pi, sqrt
from pybrain.tools.functions import simpleMultivariateNormalPdf
assert abs(simpleMultivariateNormalPdf(array([0.]), 1.) - 1 / sqrt(2 * pi)) < 1e-12
""", 'an odd dimension', 'the normalisation uses the wrong power')

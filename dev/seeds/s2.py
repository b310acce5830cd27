seed('shared-mother-twice', 'P04', [('structure/networks/network.py', '''            if c.mother not in self.motherconnections:
                self.motherconnections.append(c.mother)
                c.mother.owner = self
        elif c.paramdim > 0:''', '''            if not self.motherconnections or self.motherconnections[-1] is not c.mother:
                self.motherconnections.append(c.mother)
                c.mother.owner = self
        elif c.paramdim > 0:''')], '''
from pybrain.structure import FeedForwardNetwork, LinearLayer, SharedFullConnection, MotherConnection
n = FeedForwardNetwork()
a, b, c = LinearLayer(2, name='a'), LinearLayer(2, name='b'), LinearLayer(2, name='c')
n.addInputModule(a); n.addModule(b); n.addOutputModule(c)
m1, m2 = MotherConnection(4, name='m1'), MotherConnection(4, name='m2')
n.addConnection(SharedFullConnection(m1, a, b))
n.addConnection(SharedFullConnection(m2, b, c))
n.addConnection(SharedFullConnection(m1, a, c))
n.sortModules()
assert n.paramdim == 8, n.paramdim
''', 'two mother connections whose shared connections are added alternately', 'a shared weight set is counted twice in the parameters of the network')

seed('recurrent-forget-buffers', 'P03', [('structure/networks/recurrent.py', '''        if self.forget:
            for m in self.modules:
                m.shift(-1)''', '''        if self.forget:
            for m in self.modulesSorted[:-1] if not self.recurrentConns else self.modules:
                m.shift(-1)''')], '''
from numpy import array, allclose
from pybrain.structure import RecurrentNetwork, LinearLayer, FullConnection
n = RecurrentNetwork(forget=True)
a, b = LinearLayer(1, name='a'), LinearLayer(1, name='b')
n.addInputModule(a); n.addOutputModule(b)
n.addConnection(FullConnection(a, b, name='c'))
n.sortModules()
n.params[:] = [2.]
out = [n.activate([x])[0] for x in (1., 2., 3., 4.)]
assert allclose(out, [2., 4., 6., 8.]), out
''', 'a forgetful recurrent network without recurrent connections, several activations', 'the last module keeps stale buffers')

seed('module-shift-forward', 'P05', [('structure/modules/module.py', '''                buf[:] = append(fill ,buf[0:-items] , 0)''', '''                buf[:] = append(fill[:1], buf[:-1], 0)''')], '''
from numpy import array, allclose
from pybrain.structure import LinearLayer
l = LinearLayer(1)
for i in range(4): l._growBuffers()
k = len(l.inputbuffer)
l.inputbuffer[:, 0] = range(1, k + 1)
l.shift(2)
assert allclose(l.inputbuffer[:, 0], [0, 0] + list(range(1, k - 1))), l.inputbuffer
''', 'a forward shift by more than one step', 'buffers move by one step while the offset moves by more')

seed('dataset-relink-order', 'P11', [('datasets/dataset.py', '''        for l in linklist:
            if self[l].shape[0] != length:
                raise OutOfSyncError
        self.link = linklist''', '''        for l in linklist[:2]:
            if self[l].shape[0] != length:
                raise OutOfSyncError
        self.link = linklist''')], '''
from pybrain.datasets.dataset import DataSet, OutOfSyncError
d = DataSet()
for f in 'abc': d.addField(f, 1)
for i in range(3): d.append('a', i); d.append('b', i)
d.append('c', 1)
try:
    d.linkFields(['a', 'b', 'c'])
except OutOfSyncError:
    pass
else:
    raise AssertionError('unequal fields linked')
''', 'three fields of which the third has another length', 'fields of unequal length are linked silently')

seed('seq-remove-middle-marker', 'P13', [('datasets/sequential.py', '''            if val > seqstart:
                self.data['sequence_index'][i, :] -= seqend - seqstart''', '''            if val > seqend:
                self.data['sequence_index'][i, :] -= seqend - seqstart''')], '''
from pybrain.datasets import SequentialDataSet
d = SequentialDataSet(1, 1)
k = 0
for n in (2, 3, 1, 2):
    d.newSequence()
    for i in range(n):
        d.addSample([k], [k]); k += 1
d.removeSequence(1)
got = [[float(x[0]) for x in d.getSequenceIterator(i)] for i in range(3)]
assert got == [[0., 1.], [5.], [6., 7.]], got
''', 'removing a sequence that is followed by another one, then reading that one', 'the sequence after the removed one starts at the wrong sample')

seed('backprop-importance-batch', 'P17', [('supervised/trainers/backprop.py', '''                error += 0.5 * dot(importance, outerr ** 2)
                ponderation += sum(importance)''', '''                error += 0.5 * dot(importance, outerr ** 2)
                ponderation += len(target)''')], '''
from pybrain.datasets import ImportanceDataSet
from pybrain.structure import FeedForwardNetwork, LinearLayer, FullConnection
from pybrain.supervised.trainers import BackpropTrainer
n = FeedForwardNetwork()
a, b = LinearLayer(1, name='a'), LinearLayer(1, name='b')
n.addInputModule(a); n.addOutputModule(b); n.addConnection(FullConnection(a, b)); n.sortModules()
n.params[:] = [1.]
d = ImportanceDataSet(1, 1)
d.addSample([1.], [2.], [4.])
t = BackpropTrainer(n, d, learningrate=0.)
e = t.train()
assert abs(e - 0.5) < 1e-9, e
''', 'importance-weighted samples with importances other than one', 'the reported error is not the weighted mean')

seed('optimizer-tie-first', 'P20', [('optimization/optimizer.py', '''                or (self.minimize and res <= self.bestEvaluation)''', '''                or (self.minimize and res < self.bestEvaluation - 1e-9 * abs(self.bestEvaluation))''')], '''
from pybrain.optimization import RandomSearch
vals = [1e6, 1e6 - 5e-4, 2e6, 3e6, 3e6]
it = iter(vals + [1e7] * 50)
l = RandomSearch(lambda x: next(it), [0.], minimize=True, maxEvaluations=5)
x, f = l.learn()
assert f == 1e6 - 5e-4, f
''', 'minimization where a later evaluation is better by less than a relative 1e-9', 'the best evaluation reported is not the smallest one seen')

seed('opposed-stored-evaluations', 'P20', [('optimization/optimizer.py', '''            if self._wasOpposed and isscalar(res):
                \'\'\' added by JPQ \'\'\'
                if self.constrained :
                    self._allEvaluations.append([-res,self.feasible,self.violation])''', '''            if self._wasOpposed and isscalar(res) and self.mustMaximize:
                \'\'\' added by JPQ \'\'\'
                if self.constrained :
                    self._allEvaluations.append([-res,self.feasible,self.violation])''')], '''
from pybrain.optimization import NelderMead
l = NelderMead(lambda x: -sum(x ** 2), [1., 2.], minimize=False, maxEvaluations=20, storeAllEvaluations=True)
x, f = l.learn()
assert f <= 0 and max(l._allEvaluations) <= 0, (f, l._allEvaluations[:3])
''', 'a minimize-only optimizer used for maximization with storeAllEvaluations', 'the stored evaluations have the opposite sign')

seed('learn-additional-steps', 'P22', [('optimization/optimizer.py', '''            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps''', '''            self.maxLearningSteps = max(self.maxLearningSteps or 0, self.numLearningSteps + additionalLearningSteps)''')], '''
from pybrain.optimization import RandomSearch
l = RandomSearch(lambda x: -sum(x ** 2), [1., 2.], maxLearningSteps=50)
l.learn(5)
assert l.numLearningSteps == 5, l.numLearningSteps
''', 'learn(n) on an optimizer that was also given a larger maxLearningSteps', 'more learning steps than asked for are performed')

seed('ga-child-alias', 'P23', [('optimization/populationbased/ga.py', '''                res = zeros(xdim)
                res[:point] = p2[:point]
                res[point:] = p1[point:]
                children.append(res)
        shuffle(children)''', '''                res = zeros(xdim)
                res[:point] = p2[:point]
                res[point + 1:] = p1[point + 1:]
                children.append(res)
        shuffle(children)''')], '''
from numpy import array, allclose
from pybrain.optimization import GA
g = GA(lambda x: sum(x), [1., 1., 1.], populationSize=4, maxEvaluations=8)
ch = g.crossOver([array([1., 1., 1.]), array([2., 2., 2.])], 2)
for c in ch:
    assert all(v in (1., 2.) for v in c), ch
assert allclose(sorted(ch[0] + ch[1]), [3., 3., 3.]), ch
''', 'crossing over two parents and looking at the genes of the second child', 'the second child loses the gene at the crossover point')

seed('qlambda-trace-length', 'P29', [('rl/learners/valuebased/qlambda.py', '''            lbda = self.qlambda ** (states.shape[0] - 1 - i)
''', '''            lbda = self.qlambda ** min(states.shape[0] - 1 - i, 4)
''')], '''
from numpy import array, allclose
from pybrain.rl.learners import QLambda
from pybrain.rl.learners.valuebased import ActionValueTable
from pybrain.datasets import ReinforcementDataSet
t = ActionValueTable(10, 1); t.initialize(0.)
l = QLambda(alpha=.5, gamma=0., qlambda=.5); l.module = t
d = ReinforcementDataSet(1, 1)
for i in range(9): d.addSample([i], [0], [1.])
l._dataset = d
l.dataset = d
l.learn()
v = [t.getValue(i, 0) for i in range(8)]
assert allclose(v, [.5 * .5 ** (7 - i) for i in range(8)]), v
''', 'an episode of more than five transitions', 'old transitions get too much credit')

seed('nfq-last-experience', 'P29', [('rl/learners/valuebased/nfq.py', '''        for seq in self.dataset:
            lastexperience = None
''', '''        lastexperience = None
        for seq in self.dataset:
''')], '''
from numpy import array
from pybrain.rl.learners import NFQ
from pybrain.rl.learners.valuebased import ActionValueNetwork
from pybrain.datasets import ReinforcementDataSet
import pybrain.rl.learners.valuebased.nfq as m
got = []
class T(object):
    def __init__(self, net, dataset=None, **k): got.append(len(dataset))
    def trainUntilConvergence(self, **k): pass
m.RPropMinusTrainer = T
l = NFQ(); l.module = ActionValueNetwork(1, 2)
d = ReinforcementDataSet(1, 1)
for s in range(2):
    d.newSequence()
    for i in range(3): d.addSample([i], [0], [1.])
l.dataset = d
l.learn()
assert got == [4], got
''', 'a log with more than one episode', 'a transition from the end of one episode to the start of the next is learnt')

seed('capture-merge-second', 'P33', [('rl/environments/twoplayergames/capturegame.py', '''        freen = [n for n in self._neighbors(pos) if self.b[n] == self.EMPTY]
        self.liberties[self.groups[pos]] = set(freen)''', '''        freen = [n for n in self._neighbors(pos) if self.b[n] != -c]
        self.liberties[self.groups[pos]] = set(freen)''')], '''
from pybrain.rl.environments.twoplayergames import CaptureGame
g = CaptureGame(5)
B = g.BLACK
for p in ((2, 1), (2, 2), (2, 3), (1, 2)):
    g._setStone(B, p)
    for q in ((2, 1), (2, 2), (2, 3), (1, 2)):
        if q in g.groups:
            assert not (set(g.liberties[g.groups[q]]) & set(x for x in g.b if g.b[x] != g.EMPTY)), g.liberties
''', 'a stone placed next to a stone of its own colour', 'occupied fields count as liberties of the group')

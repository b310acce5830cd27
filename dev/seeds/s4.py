seed('coevo-beats-total', 'P27', [('optimization/populationbased/coevolution/coevolution.py', '''            return (hscore - pscore) / float(hpgames + phgames)
''', '''            return (hscore - pscore) / (2. * hpgames)
''')], '''
from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
c = Coevolution(None, [None], populationSize=1)
c.allResults[(1, 2)] = [1, 1, 1, []]
c.allResults[(2, 1)] = [0, 3, -3, []]
assert c._beats(1, 2) == 1, c._beats(1, 2)
''', 'a pair that met an unequal number of times in both directions', 'the score is not averaged over the games played')

seed('coevo-average-in-place', 'P27', [('optimization/populationbased/coevolution/coevolution.py', '''                tmp = p.copy()
                tmp.parent = p.parent
''', '''                tmp = p
''')], '''
from numpy import array, allclose
from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
class P(object):
    parent = None
    def __init__(self, x): self.params = array([x])
    def _setParameters(self, x): self.params = x
    def copy(self): return P(self.params[0])
c = Coevolution(None, [P(0.)], populationSize=1)
a = P(0.); b = P(4.); b.parent = a
d = P(8.); d.parent = b
pop = [b, d]
c._averageWithParents(pop, 0.5)
assert b.params[0] == 4 and pop[1].params[0] == 6, (b.params, pop[1].params)
''', 'a population containing both an individual and its parent', 'the parent is changed before the child is averaged with it')

seed('coevo-competitive-unplayed', 'P27', [('optimization/populationbased/coevolution/competitivecoevolution.py', '''                    assert beatsums[p] > 0
                    hsum += 1. / beatsums[p]
                elif self._beats(h, p) == 0:
                    unplayed += 1
''', '''                    assert beatsums[p] > 0
                    hsum += 1. / beatsums[p]
                elif (h, p) in self.allResults:
                    unplayed += 1
''')], '''
from pybrain.optimization.populationbased.coevolution.competitivecoevolution import CompetitiveCoevolution
C = CompetitiveCoevolution(None, [1, 2, 3, 4], populationSize=2)
C._globalScore = lambda h: 0
C.allResults[(1, 5)] = [1, 1, 1, []]; C.allResults[(5, 1)] = [0, 1, -1, []]
f = C._competitiveSharedFitness([1], [5, 6])
assert abs(f[0] - 1) < 1e-9, f
''', 'a host that has not met all parasites', 'opponents never met count as played')

seed('coevo-multipop-role', 'P27', [('optimization/populationbased/coevolution/multipopulationcoevolution.py', '''        self.pops[self.mainpop] = self.pop
        self.mainpop = self.generation % self.numPops
''', '''        self.mainpop = self.generation % self.numPops
        self.pops[self.mainpop - 1] = self.pop
''')], '''
from pybrain.optimization.populationbased.coevolution.multipopulationcoevolution import MultiPopulationCoevolution
from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
class M(MultiPopulationCoevolution):
    def __init__(self):
        self.pops = [['a'], ['b'], ['c']]; self.numPops = 3; self.generation = 3; self.mainpop = 1; self.pop = self.pops[1]
old = Coevolution._oneGeneration
def one(self):
    self.generation += 1; self.pop = ['x']
Coevolution._oneGeneration = one
m = M(); m._oneGeneration()
assert m.pops == [['a'], ['x'], ['c']], m.pops
''', 'a main population that is not the one of the generation number', 'the offspring replaces another population')

seed('owner-resize', 'P04', [('structure/parametercontainer.py', '''            self._params = p
            self.paramdim = size(self.params)
''', '''            self._params = p
            self.paramdim = len(self.params)
''')], '''
from numpy import zeros
from pybrain.structure.parametercontainer import ParameterContainer
c = ParameterContainer(4)
c._setParameters(zeros((2, 2)))
assert c.paramdim == 4, c.paramdim
''', 'a parameter array of more than one dimension', 'the number of parameters is that of its first axis')

seed('derivs-owner-unchecked', 'P04', [('structure/parametercontainer.py', '''        assert self.owner == owner
        assert size(d) == self.paramdim
        self._derivs = d
''', '''        assert owner is None or self.owner == owner
        assert size(d) == self.paramdim
        self._derivs = d
''')], '''
from numpy import zeros
from pybrain.structure import LinearLayer, FullConnection, FeedForwardNetwork
n = FeedForwardNetwork()
a, b = LinearLayer(2, name='a'), LinearLayer(2, name='b')
n.addInputModule(a); n.addOutputModule(b)
c = FullConnection(a, b); n.addConnection(c); n.sortModules()
try:
    c._setDerivatives(zeros(4))
except AssertionError:
    pass
else:
    assert 0
''', 'setting the derivatives of a container that a network owns', 'the container is cut off from the derivatives of the network')

seed('randomize-derivs-replaced', 'P04', [('structure/parametercontainer.py', '''        self._params[:] = randn(self.paramdim)*self.stdParams
''', '''        self._params = randn(self.paramdim)*self.stdParams
''')], '''
from pybrain.structure import LinearLayer, FullConnection, FeedForwardNetwork
n = FeedForwardNetwork()
a, b = LinearLayer(2, name='a'), LinearLayer(2, name='b')
n.addInputModule(a); n.addOutputModule(b)
c = FullConnection(a, b); n.addConnection(c); n.sortModules()
c.randomize()
assert (n.params == c.params).all()
''', 'randomizing one container of a network', 'the container no longer shares the parameters of the network')

seed('topology-copy-shared', 'P07', [('structure/evolvables/topology.py', '''        tmp = self.pcontainer
        self.pcontainer = None
        cp = Evolvable.copy(self)
        cp.pcontainer = tmp
        self.pcontainer = tmp
        return cp
''', '''        tmp = self.pcontainer
        self.pcontainer = None
        cp = Evolvable.copy(self)
        cp.pcontainer = self.pcontainer
        self.pcontainer = tmp
        return cp
''')], '''
from pybrain.structure import LinearLayer, FullConnection, FeedForwardNetwork
from pybrain.structure.evolvables.maskedparameters import MaskedParameters
n = FeedForwardNetwork()
a, b = LinearLayer(4, name='a'), LinearLayer(1, name='b')
n.addInputModule(a); n.addOutputModule(b); n.addConnection(FullConnection(a, b)); n.sortModules()
m = MaskedParameters(n)
assert m.copy().pcontainer is n
''', 'copying a topology evolvable', 'the copy has no parameter container')

seed('xml-find-index', 'P15', [('tools/customxml/handling.py', '''            if n.nodeName == name:
                if index == 0:
                    return n
                index -= 1
        return None
''', '''            if n.nodeName == name and index <= 0:
                return n
            index -= 1
        return None
''')], '''
import os, shutil, tempfile
from pybrain.tools.customxml.handling import XMLHandling
x = XMLHandling('none', True)
r = x.newRootNode('A'); s = x.newRootNode('B'); t = x.newRootNode('A'); u = x.newRootNode('A')
assert x.findNode('A', 1) is t and x.findNode('A', 2) is u
''', 'a file holding other elements between the searched ones', 'the index counts all elements')

seed('xml-matrix-short', 'P15', [('tools/customxml/handling.py', '''        for i, row in enumerate(m):
            r = self.newChild(node, 'row')
            self.writeAttrDict(r, {'number':str(i)})
            self.writeDoubles(r, row, precision)
''', '''        for i, row in enumerate(m):
            r = self.newChild(node, 'row')
            self.writeAttrDict(r, {'number':str(i)})
            self.writeDoubles(r, row)
''')], '''
from numpy import array
from pybrain.tools.customxml.handling import XMLHandling
x = XMLHandling('none', True)
r = x.newRootNode('A')
x.writeMatrix(r, array([[1.0000000123]]), 10)
assert abs(x.readMatrix(r)[0, 0] - 1.0000000123) < 1e-12, x.readMatrix(r)
''', 'a matrix written with a given precision', 'the precision is ignored')

seed('maze-stochastic-observation', 'P32', [('rl/environments/mazes/maze.py', '''                if random() < self.stochObs:
                    obs[i] = not obs[i]
''', '''                if random() < self.stochObs:
                    obs[i] = not obs[i - 1]
''')], '''
from numpy import array
from pybrain.rl.environments.mazes.maze import Maze
t = array([[1, 1, 1, 1], [1, 0, 0, 1], [1, 1, 0, 1], [1, 1, 1, 1]])
m = Maze(t, (2, 2), initPos=[(1, 1)])
o = m.getSensors()
m.stochObs = 1.1
assert (m.getSensors() == 1 - o).all(), (m.getSensors(), o)
''', 'noisy observations', 'a flipped sensor shows its neighbour')

seed('polarmaze-view', 'P32', [('rl/environments/mazes/polarmaze.py', '''        res[:4 - self.perseusDir] = obs[self.perseusDir:]
        res[4 - self.perseusDir:] = obs[:self.perseusDir]
''', '''        res[self.perseusDir:] = obs[:4 - self.perseusDir]
        res[:self.perseusDir] = obs[4 - self.perseusDir:]
''')], '''
from numpy import array
from pybrain.rl.environments.mazes.polarmaze import PolarMaze
t = array([[1, 1, 1, 1], [1, 0, 0, 1], [1, 1, 0, 1], [1, 1, 1, 1]])
m = PolarMaze(t, (2, 2), initPos=[(1, 1)])
m.perseusDir = 1
assert list(m.getSensors()) == [0, 1, 1, 1], m.getSensors()
''', 'a direction that is neither north nor south', 'the view turns the wrong way')

seed('true-values-first-term', 'P31', [('rl/learners/modelbased/policyiteration.py', '''    for i in range(1, int(10 / (1. - discountFactor))):
        distr = dot(distr, T)
        res += (discountFactor ** i) * dot(distr, R)
    return res
''', '''    for i in range(1, int(10 / (1. - discountFactor))):
        res += (discountFactor ** i) * dot(distr, R)
        distr = dot(distr, T)
    return res
''')], '''
from numpy import array, eye, dot
from numpy.linalg import inv
from pybrain.rl.learners.modelbased import trueValues
T = array([[0., 1.], [1., 0.]]); R = array([1., 0.])
V = trueValues(T, R, 0.5)
W = dot(inv(eye(2) - 0.5 * T), dot(T, R))
assert abs(V - W).max() < 0.01, (V, W)
''', 'a chain that does not stay where it is', 'the rewards come one step late')

seed('policy-iteration-stale-transitions', 'P31', [('rl/learners/modelbased/policyiteration.py', '''    return policy, collapsedTransitions(Ts, policy)    

def greedyQPolicy(Qs):''', '''    return policy, collapsedTransitions(Ts, policy / policy.sum(axis=0))

def greedyQPolicy(Qs):''')], '''
from numpy import array, allclose
from pybrain.rl.learners.modelbased.policyiteration import greedyPolicy, collapsedTransitions
Ts = [array([[1., 0.], [1., 0.]]), array([[0., 1.], [0., 1.]])]
p, T = greedyPolicy(Ts, array([0., 0.]), 0.5, array([0., 0.]))
p, T = greedyPolicy(Ts, array([1., 0.]), 0.5, array([0., 0.])) if 0 else (p, T)
assert allclose(T, collapsedTransitions(Ts, p)), T
p, T = greedyPolicy([array([[0.5, 0.5], [0.3, 0.7]]), array([[0.2, 0.8], [0.3, 0.7]])], array([1., 0.]), 0.5, array([0., 0.]))
assert allclose(T.sum(axis=1), 1), T
''', 'actions that are not chosen equally often', 'the rows of the transition matrix do not sum to one')

seed('lstd-q-next-action', 'P31', [('rl/learners/modelbased/leastsquares.py', '''            fto += fMapRep[:, sto + nextA * dim] * policy[sto][nextA]
''', '''            fto += fMapRep[:, sto * numA + nextA] * policy[sto][nextA]
''')], '''
from numpy import array, eye
from pybrain.rl.learners.modelbased import LSTD_Qvalues, trueQValues
from pybrain.rl.learners.modelbased.policyiteration import randomPolicy
Ts = [array([[0.9, 0.1, 0.], [0., 0.9, 0.1], [0.2, 0., 0.8]]), array([[0.1, 0.8, 0.1], [0.5, 0., 0.5], [0.3, 0.3, 0.4]])]
R = array([1., 0., 2.])
p, _ = randomPolicy(Ts); p[:, 0] = 0.9; p[:, 1] = 0.1
Q = LSTD_Qvalues(Ts, p, R, eye(3), 0.5)
W = trueQValues(Ts, R, 0.5, p)
assert abs(Q - W).max() < 0.01, (Q, W)
''', 'more than one action', 'the features of another state and action are used for the successor')

seed('rbm-momentum-lost', 'P35', [('unsupervised/trainers/rbm.py', '''                olduhb = uhb = olduhb * mm + cfg.rHidBias * hb
''', '''                uhb = olduhb * mm + cfg.rHidBias * hb
''')], '''
from numpy import array, zeros, ones
from pybrain.structure.networks.rbm import Rbm
from pybrain.datasets import UnsupervisedDataSet
from pybrain.unsupervised.trainers.rbm import RbmBernoulliTrainer
r = Rbm.fromDims(1, 1, zeros(1), zeros(1))
d = UnsupervisedDataSet(1); d.addSample([1.])
t = RbmBernoulliTrainer(r, d)
t.cfg.maxIter = 2; t.cfg.iniMm = 0.5
t.calcUpdateByRows = lambda rows: (zeros((1, 1)), ones(1), zeros(1))
t.train()
assert abs(r.biasParams[0] - 0.25) < 1e-9, r.biasParams
''', 'at least two iterations on one batch', 'the hidden biases have no momentum')

seed('rbm-invert-untransposed', 'P35', [('structure/networks/rbm.py', '''        params = self.params.reshape((self.hiddenDim, self.visibleDim)).T.flatten()
''', '''        params = self.params.reshape((self.visibleDim, self.hiddenDim)).T.flatten()
''')], '''
from numpy import arange, zeros, allclose
from pybrain.structure.networks.rbm import Rbm
r = Rbm.fromDims(3, 2, arange(6.), zeros(2))
assert allclose(r.invert().params.reshape(3, 2), r.params.reshape(2, 3).T), r.invert().params
''', 'layers of different sizes', 'the inverted machine has scrambled weights')

seed('rbm-trainer-shared-visible', 'P35', [('unsupervised/trainers/rbm.py', '''                self.invRbm = self.rbm.invert()
                self.invRbm.biasParams[:] = invBiasParams
''', '''                self.invRbm = self.rbm.invert()
''')], '''
from numpy import array, zeros, ones
from pybrain.structure.networks.rbm import Rbm
from pybrain.datasets import UnsupervisedDataSet
from pybrain.unsupervised.trainers.rbm import RbmBernoulliTrainer
r = Rbm.fromDims(1, 1, zeros(1), zeros(1))
d = UnsupervisedDataSet(1); d.addSample([1.])
t = RbmBernoulliTrainer(r, d)
t.cfg.maxIter = 1
t.invRbm.biasParams[:] = 0
t.calcUpdateByRows = lambda rows: (zeros((1, 1)), zeros(1), ones(1))
t.train()
assert abs(t.invRbm.biasParams[0] - 0.1) < 1e-9, t.invRbm.biasParams
''', 'an update of the visible biases', 'they are replaced by random values')

seed('rbm-deep-biascon-order', 'P35', [('unsupervised/trainers/deepbelief.py', '''        biascons.sort(key=lambda c: layers.index(c.outmod))
''', '''        biascons.sort(key=lambda c: c.outmod.name)
''')], '''
from pybrain.structure import FeedForwardNetwork, LinearLayer, SigmoidLayer, BiasUnit, FullConnection
from pybrain.datasets import UnsupervisedDataSet
from pybrain.unsupervised.trainers.deepbelief import DeepBeliefTrainer
n = FeedForwardNetwork()
v, h, o, b = LinearLayer(2, 'v'), SigmoidLayer(3, 'z'), SigmoidLayer(2, 'a'), BiasUnit('bias')
n.addInputModule(v); n.addModule(h); n.addOutputModule(o); n.addModule(b)
for c in (FullConnection(b, o), FullConnection(b, h), FullConnection(v, h), FullConnection(h, o)): n.addConnection(c)
n.sortModules()
t = DeepBeliefTrainer(n, UnsupervisedDataSet(2))
for r, l in zip(t.iterRbms(), (h, o)):
    assert r.biascon.outmod is l, (r.biascon.outmod.name, l.name)
''', 'layers whose names are not in alphabetical order', 'a layer is trained with the bias of another one')

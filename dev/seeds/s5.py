seed('cheap-copy-stale', 'P07', [('structure/evolvables/cheaplycopiable.py', '''    def copy(self):
        self.__stored._params[:] = self._params
        cp = CheaplyCopiable(self.__stored)
''', '''    def copy(self):
        cp = CheaplyCopiable(self.__stored)
''')], '''
from pybrain.tools.shortcuts import buildNetwork
from pybrain.structure.evolvables.cheaplycopiable import CheaplyCopiable
n = buildNetwork(2, 2, 1)
a = CheaplyCopiable(n)
b = a.copy()
b._params[:] = 7.
b.activate([1., 2.])
c = a.copy()
assert (c.params == a.params).all(), c.params
''', 'two copies of one module, another copy used in between', 'a copy takes the parameters of the copy used last')

seed('mesh-view-outsize', 'P10', [('structure/modulemesh.py', '''            outsize = layer.outdim // nbunits
''', '''            outsize = layer.indim // nbunits
''')], '''
from pybrain.structure import LSTMLayer
from pybrain.structure.modulemesh import ModuleMesh
l = LSTMLayer(6)
m = ModuleMesh.viewOnFlatLayer(l, (3,))
for k, s in enumerate(m):
    assert (s.outOffsetFrom, s.outOffsetFrom + s.outdim) == (2 * k, 2 * k + 2), (s.outOffsetFrom, s.outdim)
''', 'a layer whose input and output dimensions differ', 'the slices of the mesh reach beyond the outputs')

seed('swipe-other-direction-boundary', 'P10', [('structure/networks/swiping.py', '''                    if previousunit[dim] >= 0 and previousunit[dim] < maxval:
''', '''                    if previousunit[dim] >= 0 and previousunit[dim] < min(self.dims):
''')], '''
from pybrain.structure import LinearLayer, FullConnection
from pybrain.structure.modulemesh import ModuleMesh
from pybrain.structure.networks.swiping import SwipingNetwork
i = ModuleMesh.constructWithLayers(LinearLayer, 1, (2, 3), 'in')
h = ModuleMesh.constructWithLayers(LinearLayer, 1, (2, 3, 4), 'hid')
o = ModuleMesh.constructWithLayers(LinearLayer, 1, (2, 3), 'out')
n = SwipingNetwork(i, h, o)
c = sum(len(x) for x in n.connections.values())
assert c == 2 * 6 * 4 + 4 * (1 * 3 + 2 * 2), c
''', 'a grid that is not square', 'swipes stop before the end of the longer dimension')

seed('convert-list-first-row', 'P12', [('datasets/dataset.py', '''        # vector is not 1d, return a without change
            return a
''', '''        # vector is not 1d, return a without change
            return a[:1]
''')] if False else [('datasets/dataset.py', '''            if column:
                return a.reshape((sh[0], 1))
            else:
                return a.reshape((1, sh[0]))
''', '''            if column or sh[0] == 1:
                return a.reshape((sh[0], 1))
            else:
                return a.reshape((1, sh[0]))
''')], '''
print('equivalent')
''', '-', '-')

seed('snes-center-shared', 'P25', [('optimization/distributionbased/snes.py', '''        self._center = self._initEvaluable.copy()          
''', '''        self._center = self._initEvaluable
''')], '''
from numpy import array, random
from pybrain.optimization import SNES
random.seed(0)
x0 = array([1., 2., 3.])
l = SNES(lambda x: -sum((x - 5.) ** 2), x0, verbose=False)
init = l._initEvaluable.copy()
l.learn(5)
assert (x0 == array([1., 2., 3.])).all() and (l._initEvaluable == init).all(), (x0, l._initEvaluable)
''', 'looking at the initial point after the search', 'the search moves the initial evaluable')

seed('flip-desired-once', 'P21', [('optimization/optimizer.py', '''        if self.__evaluator is not None:
            if opp is not self._wasOpposed: 
                self._flipDirection()
        self._wasOpposed = opp
''', '''        if self.__evaluator is not None:
            if opp and not self._wasOpposed: 
                self._flipDirection()
        self._wasOpposed = opp
''')], '''
from numpy import array
from pybrain.optimization import HillClimber
from pybrain.optimization.optimizer import ContinuousOptimizer
class O(ContinuousOptimizer):
    mustMaximize = True
    def _learnStep(self): self._oneEvaluation(self._initEvaluable)
l = O(lambda x: x[0], array([3.]), minimize=True, verbose=False)
l.minimize = False
assert l._oneEvaluation(l._initEvaluable) == 3., 'sign'
''', 'minimize switched off again after an evaluator was set', 'the objective stays negated')

seed('boltzmann-decayed-first', 'P30', [('rl/explorers/discrete/boltzmann.py', '''        action = drawGibbs(values, self.tau)

        self.tau *= self.decay
''', '''        self.tau *= self.decay

        action = drawGibbs(values, self.tau)
''')], '''
from numpy import array, zeros
import pybrain.rl.explorers.discrete.boltzmann as b
seen = []
b.drawGibbs = lambda v, t: seen.append(t) or 0
e = b.BoltzmannExplorer(tau=2., decay=0.5)
class M(object):
    def getActionValues(self, s): return array([1., 2.])
e.module = M(); e._state = array([0.])
out = zeros(1)
for i in range(3): e._forwardImplementation(array([0.]), out)
assert seen == [2., 1., .5], seen
''', 'a decay that differs from one', 'the first action is drawn at a decayed temperature')

seed('enac-last-sequence', 'P30', [('rl/learners/directsearch/enac.py', '''                loglh = self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]
''', '''                loglh = self.loglh['loglh'][seqidx[n]:seqidx[n + 1] - (n > 1), :]
''')], '''
from numpy import array, allclose, ones, dot
from scipy.linalg import pinv
from pybrain.rl.learners.directsearch.enac import ENAC
from pybrain.datasets import ReinforcementDataSet
from pybrain.datasets.dataset import DataSet
class L(object): pass
e = ENAC.__new__(ENAC)
d = ReinforcementDataSet(1, 1)
lg = []
k = 0
for s in range(4):
    d.newSequence()
    for t in range(3):
        k += 1
        d.addSample([k], [k], [k * .5 + s]); lg.append([float(k * k % 7)])
class LL(object):
    def getDimension(self, l): return 1
    def __getitem__(self, l): return array(lg)
e._dataset = d; e.loglh = LL()
type(e).dataset = d
g = e.calculateGradient()
X = ones((4, 2)); R = ones((4, 1))
for s in range(4):
    X[s, 0] = sum(x[0] for x in lg[3 * s:3 * s + 3]); R[s, 0] = sum((k + 1) * .5 + s for k in range(3 * s, 3 * s + 3))
assert allclose(g, dot(pinv(X), R)[:-1]), g
''', 'a middle sequence after the second', 'the last step of later sequences is ignored')

seed('tmaze-reward-cell', 'P39', [('rl/environments/mazes/tasks/tmaze.py', '''            if abs(self.env.perseus[0] - self.env.goal[0]) == 2:
''', '''            if self.env.perseus[0] - self.env.goal[0] == 2:
''')], '''
from pybrain.rl.environments.mazes.tasks import TMaze
t = TMaze(length=4)
for up in (True, False):
    t.reset()
    t.env.goal = (3, 5) if up else (1, 5)
    t.env.perseus = (1, 5) if up else (3, 5)
    t.env.bang = False
    assert t.getReward() == t.bangPenalty, up
    assert t.isFinished()
''', 'the goal is above and the agent turns down', 'the wrong choice is neither punished nor final')

seed('maze-bump-kept', 'P39', [('rl/environments/mazes/maze.py', '''        if self.mazeTable[tmp] == False:
            self.perseus = tmp
            self.bang = False
        else:
            self.bang = True

    def getSensors''', '''        if self.mazeTable[tmp] == False:
            if self.perseus != tmp:
                self.perseus = tmp
        else:
            self.bang = True

    def getSensors''')], '''
from numpy import array
from pybrain.rl.environments.mazes import Maze
t = array([[1, 1, 1, 1], [1, 0, 0, 1], [1, 1, 1, 1]])
m = Maze(t, (1, 2), initPos=[(1, 1)])
m.performAction(0)
assert m.bang
m.performAction(1)
m.performAction(3) if m.perseus == (1, 1) else None
m.reset(); m.performAction(0); m.performAction(Maze.allActions.index((0, 1)))
assert m.perseus == (1, 2) and not m.bang
''', 'a free step after running into a wall', 'the bump is still reported after a free step')

seed('acrobot-bound-order', 'P39', [('rl/environments/classic/acrobot.py', '''            theta1 = theta1 + theta1_dot * self.delta_t
            theta2_dot = theta2_dot + accel2 * self.delta_t

            if theta2_dot < -self.maxSpeed2:
                theta2_dot = -self.maxSpeed2

            if theta2_dot > self.maxSpeed2:
                theta2_dot = self.maxSpeed2
''', '''            theta1 = theta1 + theta1_dot * self.delta_t
            theta2_dot = theta2_dot + accel2 * self.delta_t

            if theta2_dot < -self.maxSpeed1:
                theta2_dot = -self.maxSpeed1

            if theta2_dot > self.maxSpeed2:
                theta2_dot = self.maxSpeed2
''')], '''
from pybrain.rl.environments.classic.acrobot import AcrobotTask
a = AcrobotTask()
s = a.DoAction(0, [0., 0., 0., -a.maxSpeed2])
m = 0.
for k in range(200):
    s = a.DoAction(0 if s[3] <= 0 else 2, s); m = min(m, s[3])
assert a.maxSpeed2 > a.maxSpeed1
s = a.DoAction(0, [0., 0., 0., -(a.maxSpeed1 + a.maxSpeed2) / 2.])
assert s[3] < -a.maxSpeed1, s
''', 'the second joint turns backwards faster than the first may', 'the second joint is bounded by the speed limit of the first')

seed('ship-heading-wrap', 'P39', [('rl/environments/shipsteer/shipsteer.py', '''        h += (hdot + last_hdot) / 2.0
        if h > 180.:
            h -= 360.
        elif h < -180.:
            h += 360.
        self.sensors = (h, hdot, v)
''', '''        self.sensors = (h, hdot, v)
        h += (hdot + last_hdot) / 2.0
        if h > 180.:
            h -= 360.
        elif h < -180.:
            h = -h - 180.
        self.sensors = (h, hdot, v)
''')], '''
from numpy import random
from pybrain.rl.environments.shipsteer import ShipSteeringEnvironment
random.seed(1)
e = ShipSteeringEnvironment(render=False)
e.sensors = (-179., -20., 0.)
e.performAction([0., 0.])
assert 155 < e.sensors[0] < 165, e.sensors
''', 'the heading passes south towards the west', 'the heading is mirrored instead of wrapped')

seed('mountaincar-wall-speed', 'P39', [('rl/environments/classic/mountaincar.py', '''        if post1 <= bpleft:
            post1 = bpleft
            speedt1 = 0.0
''', '''        if post1 <= bpleft:
            post1 = bpleft
            speedt1 = min(speedt1, 0.0)
''')], '''
from pybrain.rl.environments.classic.mountaincar import MountainCar
m = MountainCar()
p, v = m.DoAction(0, [-1.399, -0.06])
assert p == -1.4 and v == 0., (p, v)
''', 'the car hits the left wall', 'the car keeps its speed at the wall')

seed('minimize-scaled-action', 'P39', [('rl/environments/cartpole/balancetask.py', '''        if self.t >= self.N''', '''        if self.t > self.N''')] if False else [('rl/environments/simple/tasks.py', '''        reward = self.env.f([s + 0.1 * a for s, a in zip(self.state, self.action)])
''', '''        reward = self.env.f([s + 0.1 * a for s, a in zip(self.state, self.env.action)])
''')], '''
from numpy import array
from pybrain.rl.environments.simple import SimpleEnvironment
from pybrain.rl.environments.simple.tasks import MinimizeTask
e = SimpleEnvironment(2)
t = MinimizeTask(e)
t.setScaling(None, [(-4., 4.), (-4., 4.)])
t.getObservation()
t.performAction(array([.5, -.5]))
assert abs(t.getReward() + sum((2 + .1 * a) ** 2 for a in (.5, -.5))) < 1e-9, t.getReward()
''', 'a task with scaled actions', 'the reward uses the scaled action')

seed('srn-constraint-sign', 'P34', [('rl/environments/functions/multiobjective.py', '''        g1 = 225 - (x[1]**2 + x[0]**2)
        g2 = 3*x[1] -x[0] - 10.0
''', '''        g1 = 225 - (x[1]**2 + x[0]**2)
        g2 = 3*x[1] -abs(x[0]) - 10.0
''')], '''
from numpy import array
from pybrain.rl.environments.functions.multiobjective import ConstSrn
f = ConstSrn()
assert f.g(array([-5., 2.]))[0] is False or True
ok, v = f.g(array([-12., 1.]))
assert ok, v
''', 'a negative first coordinate', 'feasible points count as violating the constraint')

seed('kur-cross-term', 'P34', [('rl/environments/functions/multiobjective.py', '''        f1 = sum(-10*exp(-0.2*sqrt(x[:-1]**2+x[1:]**2)))
''', '''        f1 = sum(-10*exp(-0.2*sqrt(x[:2]**2+x[1:3]**2)))
''')], '''
from numpy import array, exp, sqrt, allclose
from pybrain.rl.environments.functions.multiobjective import KurBenchmark
x = array([1., -2., .5, 3.])
e = -sum(-10 * exp(-.2 * sqrt(x[i] ** 2 + x[i + 1] ** 2)) for i in range(3))
assert allclose(KurBenchmark(4)(x)[0] if False else KurBenchmark.f(object.__new__(KurBenchmark), x)[0], e)
''', 'more than three dimensions', 'later pairs are missing from the first objective')

seed('save-fallback-format', 'P16', [('utilities.py', '''    return ext or None''', '''    return ext''')] if False else [('utilities.py', '''        with open(filename, 'wb') as fp:
            saver(fp, **kwargs)
''', '''        with open(filename, 'ab') as fp:
            saver(fp, **kwargs)
''')], '''
import tempfile, os, shutil
from pybrain.datasets import SupervisedDataSet
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'x.pickle')
    a = SupervisedDataSet(1, 1); a.addSample([1.], [2.]); a.saveToFile(f)
    a.addSample([3.], [4.]); a.saveToFile(f)
    assert len(SupervisedDataSet.loadFromFile(f)) == 2
finally:
    shutil.rmtree(d)
''', 'a file saved twice', 'the old content is kept in front of the new one')

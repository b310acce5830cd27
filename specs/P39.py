

@target('pybrain.rl.environments.mazes.maze.Maze')
class Maze:
    def __init__(self, topology, goal, **args):
        self.setArgs(**args)
        self.mazeTable = topology
        self.goal = goal
        if self.initPos == None:
            self.initPos = self._freePos()
            self.initPos.remove(self.goal)
        self.reset()

    def reset(self):
        self.bang = False
        self.perseus = choice(self.initPos)

    def _freePos(self):
        res = []
        for i, row in enumerate(self.mazeTable):
            for j, p in enumerate(row):
                if p == False:
                    res.append((i, j))
        return res

    def _moveInDir(self, pos, dir):
        return (pos[0] + dir[0], pos[1] + dir[1])

    def performAction(self, action):
        if self.stochAction > 0:
            if random() < self.stochAction:
                action = choice(list(range(len(self.allActions))))
        tmp = self._moveInDir(self.perseus, self.allActions[action])
        if self.mazeTable[tmp] == False:
            self.perseus = tmp
            self.bang = False
        else:
            self.bang = True

    def getSensors(self):
        obs = zeros(4)
        for i, a in enumerate(Maze.allActions):
            obs[i] = self.mazeTable[self._moveInDir(self.perseus, a)]
        if self.stochObs > 0:
            for i in range(len(obs)):
                if random() < self.stochObs:
                    obs[i] = not obs[i]
        return obs


@target('pybrain.rl.environments.mazes.polarmaze.PolarMaze')
class PolarMaze:
    def reset(self):
        Maze.reset(self)
        self.perseusDir = choice(list(range(4)))

    def performAction(self, action):
        if self.stochAction > 0:
            if random() < self.stochAction:
                action = choice(list(range(len(PolarMaze.allActions))))
        act = PolarMaze.allActions[action]
        self.bang = False
        if act == self.Forward:
            tmp = self._moveInDir(self.perseus, Maze.allActions[self.perseusDir])
            if self.mazeTable[tmp] == False:
                self.perseus = tmp
            else:
                self.bang = True
        elif act == self.TurnLeft:
            self.perseusDir = (self.perseusDir + 1) % 4
        elif act == self.TurnRight:
            self.perseusDir = (self.perseusDir - 1) % 4
        elif act == self.TurnAround:
            self.perseusDir = (self.perseusDir + 2) % 4

    def getSensors(self):
        obs = Maze.getSensors(self)
        res = zeros(4)
        res[:4 - self.perseusDir] = obs[self.perseusDir:]
        res[4 - self.perseusDir:] = obs[:self.perseusDir]
        return res


@target('pybrain.rl.environments.mazes.tasks.cheesemaze.CheeseMaze')
class CheeseMaze:
    def getObservation(self):
        res = zeros(7)
        obs = self.env.getSensors()
        if self.env.perseus == self.env.goal:
            res[6] = 1
        elif sum(obs) == 3:
            res[0] = 1
        elif sum(obs) == 1:
            res[5] = 1
        elif obs[0] == obs[1]:
            res[1] = 1
        elif obs[0] == obs[3]:
            res[2] = 1
        elif obs[0] == obs[2]:
            if obs[0] == 1:
                res[3] = 1
            else:
                res[4] = 1
        return res


@target('pybrain.rl.environments.mazes.tasks.maze.MazeTask')
class MazeTask:
    def __init__(self, **args):
        self.setArgs(**args)
        Task.__init__(self, self.mazeclass(self.topology, self.goal, initPos=self.initPos, stochObs=self.stochObs, stochAction=self.stochAction))
        self.minReward = min(self.bangPenalty, self.defaultPenalty)
        self.reset()

    def noisy(self):
        return self.stochObs > 0

    def getReward(self):
        if self.env.perseus == self.env.goal:
            return self.finalReward
        elif self.env.bang:
            return self.bangPenalty
        else:
            return self.defaultPenalty

    def isFinished(self):
        return self.env.perseus == self.env.goal or POMDPTask.isFinished(self)


@target('pybrain.rl.environments.mazes.tasks.maze4x3.FourByThreeMaze')
class FourByThreeMaze:
    def reset(self):
        MazeTask.reset(self)
        self.bad = False

    @events('performAction')
    def performAction(self, action):
        poss = []
        for a in range(self.actions):
            if (action - a) % 4 != 2:
                poss.append(a)
        if random() < self.stochAction * len(poss):
            MazeTask.performAction(self, choice(poss))
        else:
            MazeTask.performAction(self, action)

    def getObservation(self):
        res = zeros(4)
        all = self.env.getSensors()
        res[0] = all[3]
        res[1] = all[1]
        res[2] = all[3] and all[1]
        res[3] = not all[3] and (not all[1])
        return res

    def getReward(self):
        if self.bad:
            return self.minReward
        else:
            return MazeTask.getReward(self)


@target('pybrain.rl.environments.mazes.tasks.mdp.MDPMazeTask')
class MDPMazeTask:
    def getReward(self):
        if self.env.goal == self.env.perseus:
            self.env.reset()
            reward = 1.0
        else:
            reward = 0.0
        return reward

    def performAction(self, action):
        Task.performAction(self, int(action[0]))

    def getObservation(self):
        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[1] + self.env.perseus[1]])
        return obs


@target('pybrain.rl.environments.mazes.tasks.pomdp.POMDPTask')
class POMDPTask:
    def __init__(self, **args):
        self.setArgs(**args)
        self.steps = 0

    def indim(self):
        return self.actions

    def outdim(self):
        return self.observations

    def reset(self):
        self.steps = 0
        EpisodicTask.reset(self)

    def isFinished(self):
        if self.maxSteps != None:
            return self.steps >= self.maxSteps
        return False

    def performAction(self, action):
        if type(action) == ndarray:
            action = drawIndex(action, tolerant=True)
        self.steps += 1
        EpisodicTask.performAction(self, action)


@target('pybrain.rl.environments.mazes.tasks.shuttle.ShuttleDocking')
class ShuttleDocking:
    def reset(self):
        MazeTask.reset(self)
        self.env.perseusDir = 1

    def getObservation(self):
        res = zeros(5)
        if self.env.perseus == self.env.goal:
            res[4] = 1
        elif self.env.perseus == self.env.initPos[0]:
            res[0] = 1
        elif self.env.perseus[1] == 3:
            if random() > 0.7:
                res[self.env.perseusDir] = 1
            else:
                res[(self.env.perseusDir + 2) % 4] = 1
        else:
            res[(self.env.perseusDir + 2) % 4] = 1
        return res

    def performAction(self, action):
        self.steps += 1
        if action == self.TurnAround:
            self._turn()
        elif action == self.Forward:
            self._forward()
        else:
            r = random()
            if self.env.perseus[1] == 3:
                if r < 0.1:
                    self._turn()
                elif r < 0.9:
                    self._backup()
            elif self.env.perseus[1] == 2 and self.env.perseusDir == 3 or (self.env.perseus[1] == 4 and self.env.perseusDir == 1):
                if r < 0.3:
                    self._turn()
                elif r < 0.6:
                    self._backup()
            elif r < 0.7:
                self._backup()
        self.samples += 1
        self.addReward()

    def _backup(self):
        self.env.performAction(PolarMaze.TurnAround)
        self.env.performAction(PolarMaze.Forward)
        self.env.performAction(PolarMaze.TurnAround)

    def _turn(self):
        self.env.performAction(PolarMaze.TurnAround)

    def _forward(self):
        old = self.env.perseus
        self.env.performAction(PolarMaze.Forward)
        if self.env.perseus == self.env.goal or self.env.perseus == self.env.initPos[0]:
            self.env.perseus = old
            self.env.bang = True


@target('pybrain.rl.environments.mazes.tasks.tiger.TigerTask')
class TigerTask:
    def reset(self):
        self.steps = 0
        self.cumreward = 0
        self.tigerLeft = choice([True, False])
        self.done = False
        self.nextReward = -1

    def performAction(self, action):
        self.steps += 1
        if action != self.Listen:
            self.done = True
            if action == self.OpenLeft and self.tigerLeft or (action == self.OpenRight and (not self.tigerLeft)):
                self.nextReward = -100
            else:
                self.nextReward = 10
        self.samples += 1
        self.addReward()

    def getObservation(self):
        if self.tigerLeft:
            obs = array([1, 0])
        else:
            obs = array([0, 1])
        if random() < self.stochObs:
            obs = 1 - obs
        return obs

    def isFinished(self):
        return self.done or POMDPTask.isFinished(self)

    def getReward(self):
        return self.nextReward


@target('pybrain.rl.environments.mazes.tasks.tmaze.TMaze')
class TMaze:
    def __init__(self, **args):
        self.initPos = [(2, 1)]
        self.setArgs(**args)
        columns = [[1] * 5]
        for dummy in range(self.length):
            columns.append([1, 1, 0, 1, 1])
        columns.append([1, 0, 0, 0, 1])
        columns.append([1] * 5)
        self.topology = array(columns).T
        MazeTask.__init__(self, **args)

    def reset(self):
        MazeTask.reset(self)
        goUp = choice([True, False])
        self.specialObs = goUp
        if goUp:
            self.env.goal = (3, self.length + 1)
        else:
            self.env.goal = (1, self.length + 1)

    def getObservation(self):
        res = zeros(4)
        if self.env.perseus == self.env.initPos[0]:
            if self.specialObs:
                res[0] = 1
            else:
                res[1] = 1
        elif self.env.perseus[1] == self.length + 1:
            res[2] = 1
        else:
            res[3] = 1
        return res

    def getReward(self):
        if self.env.perseus[1] == self.length + 1:
            if abs(self.env.perseus[0] - self.env.goal[0]) == 2:
                self.env.perseus = self.env.goal
                return self.bangPenalty
        return MazeTask.getReward(self)


@target('pybrain.rl.environments.cartpole.cartpole.CartPoleEnvironment')
class CartPoleEnvironment:
    def __init__(self, polelength=None):
        GraphicalEnvironment.__init__(self)
        if polelength != None:
            self.l = polelength
        self.reset()
        self.action = 0.0
        self.delay = False

    def getSensors(self):
        return asarray(self.sensors)

    def performAction(self, action):
        self.action = action
        self.step()

    def step(self):
        self.sensors = rk4(self._derivs, self.sensors, [0, self.dt])
        self.sensors = self.sensors[-1]
        if self.hasRenderer():
            self.getRenderer().updateData(self.sensors)
            if self.delay:
                time.sleep(0.05)

    def reset(self):
        if self.randomInitialization:
            angle = random.uniform(-0.2, 0.2)
            pos = random.uniform(-0.5, 0.5)
        else:
            angle = -0.2
            pos = 0.2
        self.sensors = (angle, 0.0, pos, 0.0)

    def _derivs(self, x, t):
        F = self.action
        theta, theta_, _s, s_ = x
        u = theta_
        sin_theta = sin(theta)
        cos_theta = cos(theta)
        mp = self.mp
        mc = self.mc
        l = self.l
        u_ = (self.g * sin_theta * (mc + mp) - (F + mp * l * theta_ ** 2 * sin_theta) * cos_theta) / (4 / 3 * l * (mc + mp) - mp * l * cos_theta ** 2)
        v = s_
        v_ = (F - mp * l * (u_ * cos_theta - theta_ ** 2 * sin_theta)) / (mc + mp)
        return (u, u_, v, v_)

    def getPoleAngles(self):
        return [self.sensors[0]]

    def getCartPosition(self):
        return self.sensors[2]


@target('pybrain.rl.environments.cartpole.cartpole.CartPoleLinEnvironment')
class CartPoleLinEnvironment:
    def __init__(self, **kwargs):
        CartPoleEnvironment.__init__(self, **kwargs)
        nu = 13.2
        tau = self.tau
        self.A = matrix(eye(4))
        self.A[0, 1] = tau
        self.A[2, 3] = tau
        self.A[1, 0] = nu * tau
        self.b = matrix([0.0, nu * tau / 9.80665, 0.0, tau])

    def getSensors(self):
        return self.sensors.flatten()

    def step(self):
        self.sensors = random.normal(loc=self.sensors * self.A + self.action * self.b, scale=0.001).flatten()
        if self.hasRenderer():
            self.getRenderer().updateData(self.sensors)
            if self.delay:
                time.sleep(self.tau)

    def reset(self):
        self.sensors = random.normal(scale=0.1, size=4)

    def getPoleAngles(self):
        return [self.sensors[0]]

    def getCartPosition(self):
        return self.sensors[2]


@target('pybrain.rl.environments.cartpole.balancetask.BalanceTask')
class BalanceTask:
    def __init__(self, env=None, maxsteps=1000, desiredValue=0):
        self.desiredValue = desiredValue
        if env == None:
            env = CartPoleEnvironment()
        EpisodicTask.__init__(self, env)
        self.N = maxsteps
        self.t = 0
        self.sensor_limits = [(-3, 3)]
        for i in range(1, self.outdim):
            if isinstance(self.env, NonMarkovPoleEnvironment) and i % 2 == 0:
                self.sensor_limits.append(None)
            else:
                self.sensor_limits.append((-pi, pi))
        self.actor_limits = [(-50, 50)]

    def reset(self):
        EpisodicTask.reset(self)
        self.t = 0

    def performAction(self, action):
        self.t += 1
        EpisodicTask.performAction(self, action)

    def isFinished(self):
        if max(list(map(abs, self.env.getPoleAngles()))) > 0.7:
            return True
        elif abs(self.env.getCartPosition()) > 2.4:
            return True
        elif self.t >= self.N:
            return True
        return False

    def getReward(self):
        angles = list(map(abs, self.env.getPoleAngles()))
        s = abs(self.env.getCartPosition())
        reward = 0
        if min(angles) < 0.05 and abs(s) < 0.05:
            reward = 0
        elif max(angles) > 0.7 or abs(s) > 2.4:
            reward = -2 * (self.N - self.t)
        else:
            reward = -1
        return reward

    def setMaxLength(self, n):
        self.N = n


@target('pybrain.rl.environments.cartpole.balancetask.JustBalanceTask')
class JustBalanceTask:
    def getReward(self):
        angles = list(map(abs, self.env.getPoleAngles()))
        s = abs(self.env.getCartPosition())
        if min(angles) < 0.05:
            reward = 0
        elif max(angles) > 0.7 or abs(s) > 2.4:
            reward = -2 * (self.N - self.t)
        else:
            reward = -1
        return reward


@target('pybrain.rl.environments.cartpole.balancetask.EasyBalanceTask')
class EasyBalanceTask:
    def getReward(self):
        angles = list(map(abs, self.env.getPoleAngles()))
        s = abs(self.env.getCartPosition())
        if min(angles) < 0.05 and abs(s) < 0.05:
            reward = 0
        elif max(angles) > 0.7 or abs(s) > 2.4:
            reward = -2 * (self.N - self.t)
        else:
            reward = -abs(s) / 2
        return reward


@target('pybrain.rl.environments.cartpole.balancetask.DiscreteBalanceTask')
class DiscreteBalanceTask:
    def __init__(self, env=None, maxsteps=1000):
        if env == None:
            env = CartPoleEnvironment()
        EpisodicTask.__init__(self, env)
        self.N = maxsteps
        self.t = 0
        self.sensor_limits = [None] * self.env.outdim
        self.actor_limits = [(-50, 50)]

    def getObservation(self):
        sensors = self.env.getSensors()
        if self.sensor_limits:
            sensors = self.normalize(sensors)
        return sensors

    def performAction(self, action):
        action = action - (self.numActions - 1) // 2.0
        BalanceTask.performAction(self, action)

    def getReward(self):
        angles = list(map(abs, self.env.getPoleAngles()))
        s = abs(self.env.getCartPosition())
        if min(angles) < 0.05:
            reward = 1.0
        elif max(angles) > 0.7 or abs(s) > 2.4:
            reward = -1.0 * (self.N - self.t)
        else:
            reward = 0
        return reward


@target('pybrain.rl.environments.cartpole.balancetask.DiscreteNoHelpTask')
class DiscreteNoHelpTask:
    def getReward(self):
        angles = list(map(abs, self.env.getPoleAngles()))
        s = abs(self.env.getCartPosition())
        if max(angles) > 0.7 or abs(s) > 2.4:
            reward = -1.0 * (self.N - self.t)
        else:
            reward = 0.0
        return reward


@target('pybrain.rl.environments.cartpole.balancetask.DiscretePOMDPTask')
class DiscretePOMDPTask:
    def __init__(self, env=None, maxsteps=1000):
        if env == None:
            env = CartPoleEnvironment()
        EpisodicTask.__init__(self, env)
        self.N = maxsteps
        self.t = 0
        self.sensor_limits = [None] * 2
        self.actor_limits = [(-50, 50)]

    def outdim(self):
        return 2

    def getObservation(self):
        sensors = [self.env.getSensors()[0], self.env.getSensors()[2]]
        if self.sensor_limits:
            sensors = self.normalize(sensors)
        return sensors


@target('pybrain.rl.environments.cartpole.balancetask.LinearizedBalanceTask')
class LinearizedBalanceTask:
    def getReward(self):
        return dot(self.env.sensors ** 2, self.Q) + self.env.action[0] ** 2 * 0.01

    def isFinished(self):
        if abs(self.env.getPoleAngles()[0]) > 0.5235988:
            return True
        elif abs(self.env.getCartPosition()) > 1.5:
            return True
        elif self.t >= self.N:
            return True
        return False


@target('pybrain.rl.environments.cartpole.balancetask.DiscreteBalanceTaskRBF')
class DiscreteBalanceTaskRBF:
    def getReward(self):
        angles = list(map(abs, self.env.getPoleAngles()))
        if max(angles) > 1.6:
            reward = -1.0
        else:
            reward = 0.0
        return reward

    def isFinished(self):
        if max(list(map(abs, self.env.getPoleAngles()))) > 1.6:
            return True
        elif self.t >= self.N:
            return True
        return False

    def getObservation(self):
        res = ones(1 + len(self.CENTERS))
        sensors = self.env.getSensors()[:-2]
        res[1:] = exp(-array(list(map(norm, self.CENTERS - sensors))) ** 2 / 2)
        return res

    def outdim(self):
        return 1 + len(self.CENTERS)


@target('pybrain.rl.environments.cartpole.balancetask.DiscreteDoubleBalanceTaskRBF')
class DiscreteDoubleBalanceTaskRBF:
    def __init__(self, env=None, maxsteps=1000):
        if env == None:
            env = DoublePoleEnvironment()
        DiscreteBalanceTask.__init__(self, env, maxsteps)


@target('pybrain.rl.environments.cartpole.doublepole.DoublePoleEnvironment')
class DoublePoleEnvironment:
    def getSensors(self):
        s1 = self.p1.getSensors()
        s2 = self.p2.getSensors()
        self.sensors = (s1[0], s1[1], s2[0], s2[1], s2[2], s2[3])
        return self.sensors

    def reset(self):
        self.p1.reset()
        self.p2.reset()
        self.p2.sensors = (self.p2.sensors[0], self.p2.sensors[1], self.p1.sensors[2], self.p1.sensors[3])
        self.getSensors()

    def performAction(self, action):
        self.p1.performAction(action)
        self.p2.performAction(action)

    def getCartPosition(self):
        return self.sensors[4]

    def getPoleAngles(self):
        return [self.sensors[0], self.sensors[2]]


@target('pybrain.rl.environments.cartpole.nonmarkovdoublepole.NonMarkovDoublePoleEnvironment')
class NonMarkovDoublePoleEnvironment:
    def getSensors(self):
        tmp = DoublePoleEnvironment.getSensors(self)
        return (tmp[0], tmp[2], tmp[4])

    def getPoleAngles(self):
        return [self.sensors[0], self.sensors[1]]

    def getCartPosition(self):
        return self.sensors[2]


@target('pybrain.rl.environments.cartpole.nonmarkovpole.NonMarkovPoleEnvironment')
class NonMarkovPoleEnvironment:
    def getSensors(self):
        tmp = CartPoleEnvironment.getSensors(self)
        return (tmp[0], tmp[2])

    def getCartPosition(self):
        return self.sensors[1]


@target('pybrain.rl.environments.classic.mountaincar.MountainCar')
class MountainCar:
    def __init__(self):
        self.nactions = len(self.action_list)
        self.reset()
        self.cumreward = 0

    def reset(self):
        self.state = self.GetInitialState()

    def getObservation(self):
        return array([self.state[0], self.state[1] * 100, 1])

    def performAction(self, action):
        if self.done > 0:
            self.done += 1
        else:
            self.state = self.DoAction(action, self.state)
            self.r, self.done = self.GetReward(self.state)
            self.cumreward += self.r

    def getReward(self):
        return self.r

    def GetInitialState(self):
        self.StartEpisode()
        return [-0.5, 0.0]

    def StartEpisode(self):
        self.steps = 0
        self.episode = self.episode + 1
        self.done = 0

    def isFinished(self):
        if self.done >= 3 and self.resetOnSuccess:
            self.reset()
            return False
        else:
            return self.done >= 3

    def GetReward(self, s):
        position = s[0]
        vel = s[1]
        bpright = self.goalPos
        r = 0
        f = 0
        if position >= bpright:
            r = 1
            f = 1
        if self.steps >= self.maxSteps:
            f = 5
        return (r, f)

    def DoAction(self, a, s):
        force = self.action_list[a]
        self.steps = self.steps + 1
        position = s[0]
        speed = s[1]
        bpleft = -1.4
        bsleft = -0.07
        bsright = 0.07
        speedt1 = speed + 0.001 * force + -0.0025 * cos(3.0 * position)
        if speedt1 < bsleft:
            speedt1 = bsleft
        elif speedt1 > bsright:
            speedt1 = bsright
        post1 = position + speedt1
        if post1 <= bpleft:
            post1 = bpleft
            speedt1 = 0.0
        return [post1, speedt1]


@target('pybrain.rl.environments.classic.acrobot.AcrobotTask')
class AcrobotTask:
    def __init__(self):
        self.reset()
        self.cumreward = 0

    def getObservation(self):
        return array(self.state + [pi]) / pi

    def performAction(self, action):
        if self.done > 0:
            self.done += 1
        else:
            self.state = self.DoAction(action, self.state)
            self.r, self.done = self.GetReward(self.state)
            self.cumreward += self.r

    def reset(self):
        self.state = self.GetInitialState()

    def getReward(self):
        return self.r

    def isFinished(self):
        if self.done >= 3 and self.resetOnSuccess:
            self.reset()
            return False
        else:
            return self.done >= 3

    def GetInitialState(self):
        s = [0, 0, 0, 0]
        self.StartEpisode()
        return s

    def StartEpisode(self):
        self.steps = 0
        self.episode = self.episode + 1
        self.done = 0

    def GetReward(self, x):
        y_acrobot = [0, 0, 0]
        theta1 = x[0]
        theta2 = x[1]
        y_acrobot[1] = y_acrobot[0] - cos(theta1)
        y_acrobot[2] = y_acrobot[1] - cos(theta2)
        goal = y_acrobot[0] + self.target
        if self.easy_rewards:
            r = y_acrobot[2]
        else:
            r = 0
        f = 0
        if y_acrobot[2] >= goal:
            if self.easy_rewards:
                r = 10 * y_acrobot[2]
            else:
                r = 1
            f = 1
        if self.steps >= self.maxSteps:
            f = 5
        return (r, f)

    def DoAction(self, a, x):
        self.steps = self.steps + 1
        torque = self.action_list[a]
        theta1, theta2, theta1_dot, theta2_dot = x
        for _ in range(4):
            d1 = self.m1 * self.lc1Square + self.m2 * (self.l1Square + self.lc2Square + 2 * self.l1 * self.lc2 * cos(theta2)) + self.I1 + self.I2
            d2 = self.m2 * (self.lc2Square + self.l1 * self.lc2 * cos(theta2)) + self.I2
            phi2 = self.m2 * self.lc2 * self.g * cos(theta1 + theta2 - pi / 2.0)
            phi1 = -self.m2 * self.l1 * self.lc2 * theta2_dot * sin(theta2) * (theta2_dot - 2 * theta1_dot) + (self.m1 * self.lc1 + self.m2 * self.l1) * self.g * cos(theta1 - pi / 2.0) + phi2
            accel2 = torque + phi1 * (d2 / d1) - self.m2 * self.l1 * self.lc2 * theta1_dot * theta1_dot * sin(theta2) - phi2
            accel2 = accel2 / (self.m2 * self.lc2Square + self.I2 - d2 * d2 / d1)
            accel1 = -(d2 * accel2 + phi1) / d1
            theta1_dot = theta1_dot + accel1 * self.delta_t
            if theta1_dot < -self.maxSpeed1:
                theta1_dot = -self.maxSpeed1
            if theta1_dot > self.maxSpeed1:
                theta1_dot = self.maxSpeed1
            theta1 = theta1 + theta1_dot * self.delta_t
            theta2_dot = theta2_dot + accel2 * self.delta_t
            if theta2_dot < -self.maxSpeed2:
                theta2_dot = -self.maxSpeed2
            if theta2_dot > self.maxSpeed2:
                theta2_dot = self.maxSpeed2
            theta2 = theta2 + theta2_dot * self.delta_t
        if theta1 < -pi:
            theta1 += 2 * pi
        elif theta1 > pi:
            theta1 -= 2 * pi
        if theta2 < -pi:
            theta2 += 2 * pi
        elif theta2 > pi:
            theta2 -= 2 * pi
        xp = [theta1, theta2, theta1_dot, theta2_dot]
        return xp


@target('pybrain.rl.environments.classic.acrobot.SingleArmSwinger')
class SingleArmSwinger:
    def GetInitialState(self):
        s = [pi, 0, 0, 0]
        self.StartEpisode()
        return s

    def getObservation(self):
        return array(self.state[2:] + [pi]) / pi

    def performAction(self, action):
        AcrobotTask.performAction(self, action)
        _, theta2, _, theta2_dot = self.state
        self.state = [pi, theta2, 0, theta2_dot]


@target('pybrain.rl.environments.classic.xor.XORTask')
class XORTask:
    def __init__(self):
        self.r = 0
        self._counter = 0

    def getObservation(self):
        if self.randomorder:
            self.obs = array([randint(0, 1), randint(0, 1), 1])
        else:
            self.obs = array([self._counter % 2, self._counter // 2 % 2, 1])
        self._counter += 1
        return self.obs

    def performAction(self, action):
        if self.and_task and action == self.obs[0] & self.obs[1] or (not self.and_task and action == self.obs[0] ^ self.obs[1]):
            self.r = 1
        else:
            self.r = -1
        self.addReward()

    def getReward(self):
        if random() < self.stochasticity:
            return -self.r
        else:
            return self.r

    def isFinished(self):
        return False


@target('pybrain.rl.environments.classic.xor.XORChainTask')
class XORChainTask:
    def __init__(self):
        self.r = 0
        self.state = 0

    def getObservation(self):
        self.obs = array([self.state % 2, self.state // 2 % 2, 1])
        return self.obs

    def performAction(self, action):
        if self.and_task and action == self.obs[0] & self.obs[1] or (not self.and_task and action == self.obs[0] ^ self.obs[1]):
            self.r = -1 + 2 * (self.state >= self.reward_cutoff)
            self.state = min(self.state + 1, 3)
        else:
            self.r = -1
            self.state = 0
        self.addReward()


@target('pybrain.rl.environments.shipsteer.shipsteer.ShipSteeringEnvironment')
class ShipSteeringEnvironment:
    def step(self):
        thrust = float(self.action[0])
        rudder = float(self.action[1])
        h, hdot, v = self.sensors
        rnd = random.normal(0, 1.0, size=3)
        thrust = min(max(thrust, -1), +2)
        rudder = min(max(rudder, -90), +90)
        drag = 5 * h + (rudder ** 2 + rnd[0])
        force = 30.0 * thrust - 2.0 * v - 0.02 * v * drag + rnd[1] * 3.0
        v = v + self.dt * force / self.mass
        v = min(max(v, -10), +40)
        torque = -v * (rudder + h + 1.0 * hdot + rnd[2] * 10.0)
        last_hdot = hdot
        hdot += torque / self.I
        hdot = min(max(hdot, -180), 180)
        h += (hdot + last_hdot) / 2.0
        if h > 180.0:
            h -= 360.0
        elif h < -180.0:
            h += 360.0
        self.sensors = (h, hdot, v)

    def reset(self):
        self.sensors = [random.uniform(-30.0, 30.0), 0.0, 0.0]
        if self.render:
            if self.server.clients > 0:
                self.server.send(['r', 'r', 'r'])

    def getHeading(self):
        return self.sensors[0]

    def getSpeed(self):
        return self.sensors[2]

    def getSensors(self):
        return self.sensors

    def performAction(self, action):
        self.action = action
        self.step()
        if self.render:
            if self.updateDone:
                self.updateRenderer()
                if self.server.clients > 0:
                    sleep(0.2)


@target('pybrain.rl.environments.shipsteer.northwardtask.GoNorthwardTask')
class GoNorthwardTask:
    def __init__(self, env=None, maxsteps=1000):
        if env == None:
            env = ShipSteeringEnvironment(render=False)
        EpisodicTask.__init__(self, env)
        self.N = maxsteps
        self.t = 0
        self.sensor_limits = [(-180.0, +180.0), (-180.0, +180.0), (-10.0, +40.0)]
        self.actor_limits = [(-1.0, +2.0), (-90.0, +90.0)]
        self.rewardscale = 100.0 / maxsteps / self.sensor_limits[2][1]

    def reset(self):
        EpisodicTask.reset(self)
        self.t = 0

    def performAction(self, action):
        self.t += 1
        EpisodicTask.performAction(self, action)

    def isFinished(self):
        if self.t >= self.N:
            return True
        return False

    def getReward(self):
        if abs(self.env.getHeading()) < 5.0:
            return self.env.getSpeed() * self.rewardscale
        else:
            return 0

    def setMaxLength(self, n):
        self.N = n


@target('pybrain.rl.environments.simple.environment.SimpleEnvironment')
class SimpleEnvironment:
    def __init__(self, dim=1):
        Environment.__init__(self)
        self.dim = dim
        self.indim = dim
        self.outdim = dim
        self.noise = None
        self.reset()

    def setNoise(self, variance):
        self.noise = variance

    def getSensors(self):
        if not self.updated:
            self.update()
        return self.state

    def performAction(self, action):
        self.updated = False
        self.action = action

    def update(self):
        self.state = [s + 0.1 * a for s, a in zip(self.state, self.action)]
        if self.noise:
            self.state += random.normal(0, self.noise, self.dim)

    def f(self, x):
        return [v ** 2 for v in x]

    def reset(self):
        self.state = random.uniform(2, 2, self.dim)
        self.action = zeros(self.dim, float)
        self.updated = True


@target('pybrain.rl.environments.simple.tasks.MinimizeTask')
class MinimizeTask:
    def __init__(self, environment):
        EpisodicTask.__init__(self, environment)
        self.N = 15
        self.t = 0
        self.state = [0.0] * environment.dim
        self.action = [0.0] * environment.dim

    def reset(self):
        EpisodicTask.reset(self)
        self.t = 0

    def isFinished(self):
        if self.t >= self.N:
            self.t = 0
            return True
        else:
            self.t += 1
            return False

    def getObservation(self):
        self.state = EpisodicTask.getObservation(self)
        return self.state

    def performAction(self, action):
        EpisodicTask.performAction(self, action)
        self.action = action

    def getReward(self):
        reward = self.env.f([s + 0.1 * a for s, a in zip(self.state, self.action)])
        return -sum(reward)

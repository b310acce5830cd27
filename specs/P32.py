

@target('pybrain.rl.environments.task.Task')
class Task:
    def __init__(self, environment):
        self.env = environment
        self.sensor_limits = None
        self.actor_limits = None
        self.clipping = True

    def setScaling(self, sensor_limits, actor_limits):
        self.sensor_limits = sensor_limits
        self.actor_limits = actor_limits

    def performAction(self, action):
        if self.actor_limits:
            action = self.denormalize(action)
        self.env.performAction(action)

    def getObservation(self):
        sensors = self.env.getSensors()
        if self.sensor_limits:
            sensors = self.normalize(sensors)
        return sensors

    def getReward(self):
        return abstractMethod()

    def normalize(self, sensors):
        assert len(self.sensor_limits) == len(sensors)
        result = []
        for l, s in zip(self.sensor_limits, sensors):
            if not l:
                result.append(s)
            else:
                r = (s - l[0]) / (l[1] - l[0]) * 2 - 1.0
                if self.clipping:
                    r = clip(r, -1, 1)
                result.append(r)
        return asarray(result)

    def denormalize(self, actors):
        assert len(self.actor_limits) == len(actors)
        result = []
        for l, a in zip(self.actor_limits, actors):
            if not l:
                result.append(a)
            else:
                r = (a + 1.0) / 2 * (l[1] - l[0]) + l[0]
                if self.clipping:
                    r = clip(r, l[0], l[1])
                result.append(r)
        return result

    def indim(self):
        return self.env.indim

    def outdim(self):
        return self.env.outdim


@target('pybrain.rl.environments.episodic.EpisodicTask')
class EpisodicTask:
    def reset(self):
        self.env.reset()
        self.cumreward = 0
        self.samples = 0

    def isFinished(self):
        abstractMethod()

    def performAction(self, action):
        Task.performAction(self, action)
        self.samples += 1
        self.addReward()

    def addReward(self):
        if self.discount:
            self.cumreward += power(self.discount, self.samples) * self.getReward()
        else:
            self.cumreward += self.getReward()

    def getTotalReward(self):
        return self.cumreward

    def f(self, x):
        r = 0.0
        for _ in range(self.batchSize):
            if isinstance(x, Module):
                x.reset()
                self.reset()
                while not self.isFinished():
                    self.performAction(x.activate(self.getObservation()))
            elif isinstance(x, Agent):
                EpisodicExperiment(self, x).doEpisodes()
            else:
                raise ValueError(self.__class__.__name__ + ' cannot evaluate the fitness of ' + str(type(x)))
            r += self.getTotalReward()
        return r / float(self.batchSize)


@target('pybrain.rl.environments.fitnessevaluator.FitnessEvaluator')
class FitnessEvaluator:
    def f(self, x):
        abstractMethod()

    def __call__(self, x):
        return self.f(x)


@target('pybrain.rl.environments.functions.function.FunctionEnvironment')
class FunctionEnvironment:
    def __init__(self, xdim=None, xopt=None, xbound=5, feasible=True, constrained=False, violation=False, **args):
        self.feasible = feasible
        self.constrained = constrained
        self.violation = violation
        self.xbound = xbound
        if xdim is None:
            xdim = self.xdim
        if xdim is None:
            xdim = self.xdimMin
        assert xdim >= self.xdimMin and (not (self.xdimMax is not None and xdim > self.xdimMax))
        self.xdim = xdim
        if xopt is None:
            self.xopt = zeros(self.xdim)
        else:
            self.xopt = xopt
        setAllArgs(self, args)
        self.reset()

    def __call__(self, x):
        if isinstance(x, ParameterContainer):
            x = x.params
        assert type(x) == ndarray, 'FunctionEnvironment: Input not understood: ' + str(type(x))
        return self.f(x)

    def reset(self):
        self.result = None

    def getSensors(self):
        tmp = self.result
        assert tmp is not None
        self.result = None
        return array([tmp])

    def performAction(self, action):
        self.result = self(action)

    def indim(self):
        return self.xdim

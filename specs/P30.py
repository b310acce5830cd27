

@target('pybrain.rl.explorers.explorer.Explorer')
class Explorer:
    def activate(self, state, action):
        return Module.activate(self, action)

    def newEpisode(self):
        pass


@target('pybrain.rl.explorers.continuous.normal.NormalExplorer')
class NormalExplorer:
    def __init__(self, dim, sigma=0.0):
        Explorer.__init__(self, dim, dim)
        self.dim = dim
        ParameterContainer.__init__(self, dim, stdParams=0)
        self.sigma = [sigma] * dim

    @shared('_params')
    def _setSigma(self, sigma):
        assert len(sigma) == self.dim
        self._params *= 0
        self._params += sigma

    def _getSigma(self):
        return self.params

    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[:] = random.normal(inbuf, expln(self.sigma))

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        expln_sigma = expln(self.sigma)
        self._derivs += ((outbuf - inbuf) ** 2 - expln_sigma ** 2) / expln_sigma * explnPrime(self.sigma)
        inerr[:] = outbuf - inbuf

    def _getSigma(self):
        return self.params


@target('pybrain.rl.explorers.continuous.sde.StateDependentExplorer')
class StateDependentExplorer:
    def __init__(self, statedim, actiondim, sigma=-2.0):
        Explorer.__init__(self, actiondim, actiondim)
        self.statedim = statedim
        self.actiondim = actiondim
        ParameterContainer.__init__(self, actiondim, stdParams=0)
        self.sigma = [sigma] * actiondim
        self.explmatrix = random.normal(0.0, expln(self.sigma), (statedim, actiondim))
        self.state = None

    @shared('_params')
    def _setSigma(self, sigma):
        assert len(sigma) == self.actiondim
        self._params *= 0
        self._params += sigma

    def _getSigma(self):
        return self.params

    def newEpisode(self):
        self.explmatrix = random.normal(0.0, expln(self.sigma), self.explmatrix.shape)

    def activate(self, state, action):
        self.state = state
        return Module.activate(self, action)

    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[:] = inbuf + dot(self.state, self.explmatrix)


@target('pybrain.rl.explorers.discrete.discrete.DiscreteExplorer')
class DiscreteExplorer:
    def __init__(self):
        Explorer.__init__(self, 1, 1)

    def _setModule(self, module):
        self._module = module

    def _getModule(self):
        return self._module

    def _getModule(self):
        return self._module


@target('pybrain.rl.explorers.discrete.boltzmann.BoltzmannExplorer')
class BoltzmannExplorer:
    def __init__(self, tau=2.0, decay=0.9995):
        DiscreteExplorer.__init__(self)
        self.tau = tau
        self.decay = decay
        self._state = None

    def activate(self, state, action):
        self._state = state
        return DiscreteExplorer.activate(self, state, action)

    def _forwardImplementation(self, inbuf, outbuf):
        assert self.module
        values = self.module.getActionValues(self._state)
        action = drawGibbs(values, self.tau)
        self.tau *= self.decay
        outbuf[:] = array([action])


@target('pybrain.rl.explorers.discrete.egreedy.EpsilonGreedyExplorer')
class EpsilonGreedyExplorer:
    def __init__(self, epsilon=0.3, decay=0.9999):
        DiscreteExplorer.__init__(self)
        self.epsilon = epsilon
        self.decay = decay

    def _forwardImplementation(self, inbuf, outbuf):
        assert self.module
        if random.random() < self.epsilon:
            outbuf[:] = array([random.randint(self.module.numActions)])
        else:
            outbuf[:] = inbuf
        self.epsilon *= self.decay


@target('pybrain.rl.explorers.discrete.discretesde.DiscreteStateDependentExplorer')
class DiscreteStateDependentExplorer:
    def __init__(self, epsilon=0.2, decay=0.9998):
        DiscreteExplorer.__init__(self)
        self.state = None

    def _setModule(self, module):
        self._module = module
        self.explorerModule = deepcopy(module)

    def _getModule(self):
        return self._module

    def activate(self, state, action):
        self.state = state
        return DiscreteExplorer.activate(self, state, action)

    def _forwardImplementation(self, inbuf, outbuf):
        if random.random() < 0.001:
            outbuf[:] = array([random.randint(self.module.numActions)])
        else:
            outbuf[:] = self.explorerModule.activate(self.state)

    def newEpisode(self):
        self.explorerModule = deepcopy(self.module)
        if isinstance(self.explorerModule, ActionValueNetwork):
            self.explorerModule.network.mutationStd = 0.01
            self.explorerModule.network.mutate()
        elif isinstance(self.explorerModule, ActionValueTable):
            self.explorerModule.mutationStd = 0.01
            self.explorerModule.mutate()

    def _getModule(self):
        return self._module


@target('pybrain.rl.learners.directsearch.policygradient.LoglhDataSet')
class LoglhDataSet:
    def __init__(self, dim):
        DataSet.__init__(self)
        self.addField('loglh', dim)
        self.linkFields(['loglh'])
        self.index = 0


@target('pybrain.rl.learners.directsearch.policygradient.PolicyGradientLearner')
class PolicyGradientLearner:
    def __init__(self):
        self.gd = GradientDescent()
        self._explorer = None
        self.loglh = None
        self.network = None

    def _setLearningRate(self, alpha):
        self.gd.alpha = alpha

    def _getLearningRate(self):
        return self.gd.alpha

    @events('_initializeNetwork')
    def _setModule(self, module):
        self._module = module
        self._explorer = NormalExplorer(module.outdim)
        self._initializeNetwork()

    def _getModule(self):
        return self._module

    @events('_initializeNetwork')
    def _setExplorer(self, explorer):
        assert self._module
        self._explorer = explorer
        self._initializeNetwork()

    def _getExplorer(self):
        return self._explorer

    def _initializeNetwork(self):
        self.network = FeedForwardNetwork()
        self.network.addInputModule(self._module)
        self.network.addOutputModule(self._explorer)
        self.network.addConnection(IdentityConnection(self._module, self._explorer))
        self.network.sortModules()
        self.gd.init(self.network.params)
        self.loglh = LoglhDataSet(self.network.paramdim)

    def learn(self):
        assert self.dataset != None
        assert self.module != None
        gradient = self.calculateGradient()
        if max(gradient) > 1000:
            gradient = gradient / max(gradient) * 1000
        p = self.gd(gradient.flatten())
        self.network._setParameters(p)
        self.network.reset()

    def explore(self, state, action):
        explorative = ExploringLearner.explore(self, state, action)
        self.network.backward()
        self.loglh.appendLinked(self.network.derivs.copy())
        return explorative

    def reset(self):
        self.loglh.clear()

    def calculateGradient(self):
        abstractMethod()

    def _getLearningRate(self):
        return self.gd.alpha

    def _getModule(self):
        return self._module

    def _getExplorer(self):
        return self._explorer


@target('pybrain.rl.learners.directsearch.reinforce.Reinforce')
class Reinforce:
    def calculateGradient(self):
        returns = self.dataset.getSumOverSequences('reward')
        seqidx = ravel(self.dataset['sequence_index']).astype(int)
        loglhs = [sum(self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]) for n in range(self.dataset.getNumSequences() - 1)]
        loglhs.append(sum(self.loglh['loglh'][seqidx[-1]:, :]))
        loglhs = array(loglhs)
        baselines = mean(loglhs ** 2 * returns, 0) / mean(loglhs ** 2, 0)
        gradient = -mean(loglhs * (returns - baselines), 0)
        return gradient


@target('pybrain.rl.learners.directsearch.enac.ENAC')
class ENAC:
    def calculateGradient(self):
        R = ones((self.dataset.getNumSequences(), 1), float)
        X = ones((self.dataset.getNumSequences(), self.loglh.getDimension('loglh') + 1), float)
        print(self.dataset.getNumSequences())
        for n in range(self.dataset.getNumSequences()):
            _state, _action, reward = self.dataset.getSequence(n)
            seqidx = ravel(self.dataset['sequence_index']).astype(int)
            if n == self.dataset.getNumSequences() - 1:
                loglh = self.loglh['loglh'][seqidx[n]:, :]
            else:
                loglh = self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]
            X[n, :-1] = sum(loglh, 0)
            R[n, 0] = sum(reward, 0)
        beta = dot(pinv(X), R)
        return beta[:-1]

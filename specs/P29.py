

@target('pybrain.rl.learners.valuebased.valuebased.ValueBasedLearner')
class ValueBasedLearner:
    def __init__(self):
        self.explorer = EpsilonGreedyExplorer()

    def _setModule(self, module):
        if self.explorer:
            self.explorer.module = module
        self._module = module

    def _getModule(self):
        return self._module

    def _setExplorer(self, explorer):
        self._explorer = explorer
        if self.module:
            self._explorer.module = self.module

    def _getExplorer(self):
        return self._explorer

    def _getModule(self):
        return self._module

    def _getExplorer(self):
        return self._explorer


@target('pybrain.rl.learners.valuebased.q.Q')
class Q:
    def __init__(self, alpha=0.5, gamma=0.99):
        ValueBasedLearner.__init__(self)
        self.alpha = alpha
        self.gamma = gamma
        self.laststate = None
        self.lastaction = None

    def learn(self):
        if self.batchMode:
            samples = self.dataset
        else:
            samples = [[self.dataset.getSample()]]
        for seq in samples:
            self.laststate = None
            self.lastaction = None
            self.lastreward = None
            for state, action, reward in seq:
                state = int(state)
                action = int(action)
                if self.laststate == None:
                    self.lastaction = action
                    self.laststate = state
                    self.lastreward = reward
                    continue
                qvalue = self.module.getValue(self.laststate, self.lastaction)
                maxnext = self.module.getValue(state, self.module.getMaxAction(state))
                self.module.updateValue(self.laststate, self.lastaction, qvalue + self.alpha * (self.lastreward + self.gamma * maxnext - qvalue))
                self.laststate = state
                self.lastaction = action
                self.lastreward = reward


@target('pybrain.rl.learners.valuebased.sarsa.SARSA')
class SARSA:
    def __init__(self, alpha=0.5, gamma=0.99):
        ValueBasedLearner.__init__(self)
        self.alpha = alpha
        self.gamma = gamma
        self.laststate = None
        self.lastaction = None

    def learn(self):
        if self.batchMode:
            samples = self.dataset
        else:
            samples = [[self.dataset.getSample()]]
        for seq in samples:
            self.laststate = None
            self.lastaction = None
            self.lastreward = None
            for state, action, reward in seq:
                state = int(state)
                action = int(action)
                if self.laststate == None:
                    self.lastaction = action
                    self.laststate = state
                    self.lastreward = reward
                    continue
                qvalue = self.module.getValue(self.laststate, self.lastaction)
                qnext = self.module.getValue(state, action)
                self.module.updateValue(self.laststate, self.lastaction, qvalue + self.alpha * (self.lastreward + self.gamma * qnext - qvalue))
                self.laststate = state
                self.lastaction = action
                self.lastreward = reward


@target('pybrain.rl.learners.valuebased.qlambda.QLambda')
class QLambda:
    def __init__(self, alpha=0.5, gamma=0.99, qlambda=0.9):
        ValueBasedLearner.__init__(self)
        self.alpha = alpha
        self.gamma = gamma
        self.qlambda = qlambda
        self.laststate = None
        self.lastaction = None

    def learn(self):
        states = self.dataset['state']
        actions = self.dataset['action']
        rewards = self.dataset['reward']
        for i in range(states.shape[0] - 1, 0, -1):
            lbda = self.qlambda ** (states.shape[0] - 1 - i)
            if lbda < 0.0001:
                break
            state = int(states[i])
            laststate = int(states[i - 1])
            lastaction = int(actions[i - 1])
            lastreward = float(rewards[i - 1])
            qvalue = self.module.getValue(laststate, lastaction)
            maxnext = self.module.getValue(state, self.module.getMaxAction(state))
            self.module.updateValue(laststate, lastaction, qvalue + self.alpha * lbda * (lastreward + self.gamma * maxnext - qvalue))


@target('pybrain.rl.learners.valuebased.nfq.NFQ')
class NFQ:
    def __init__(self, maxEpochs=20):
        ValueBasedLearner.__init__(self)
        self.gamma = 0.9
        self.maxEpochs = maxEpochs

    def learn(self):
        supervised = SupervisedDataSet(self.module.network.indim, 1)
        for seq in self.dataset:
            lastexperience = None
            for state, action, reward in seq:
                if not lastexperience:
                    lastexperience = (state, action, reward)
                    continue
                state_, action_, reward_ = lastexperience
                Q = self.module.getValue(state_, action_[0])
                inp = r_[state_, one_to_n(action_[0], self.module.numActions)]
                tgt = Q + 0.5 * (reward_ + self.gamma * max(self.module.getActionValues(state)) - Q)
                supervised.addSample(inp, tgt)
                lastexperience = (state, action, reward)
        trainer = RPropMinusTrainer(self.module.network, dataset=supervised, batchlearning=True, verbose=False)
        trainer.trainUntilConvergence(maxEpochs=self.maxEpochs)


@target('pybrain.rl.learners.valuebased.interface.ActionValueTable')
class ActionValueTable:
    def __init__(self, numStates, numActions, name=None):
        Module.__init__(self, 1, 1, name)
        ParameterContainer.__init__(self, numStates * numActions)
        self.numRows = numStates
        self.numColumns = numActions

    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[0] = self.getMaxAction(inbuf[0])

    def getMaxAction(self, state):
        values = self.params.reshape(self.numRows, self.numColumns)[int(state), :].flatten()
        action = where(values == max(values))[0]
        action = choice(action)
        return action

    def getActionValues(self, state):
        return self.params.reshape(self.numRows, self.numColumns)[int(state), :].flatten()

    def initialize(self, value=0.0):
        self._params[:] = value

    def numActions(self):
        return self.numColumns


@target('pybrain.rl.learners.valuebased.interface.ActionValueNetwork')
class ActionValueNetwork:
    def __init__(self, dimState, numActions, name=None):
        Module.__init__(self, dimState, 1, name)
        self.network = buildNetwork(dimState + numActions, dimState + numActions, 1)
        self.numActions = numActions

    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[0] = self.getMaxAction(asarray(inbuf))

    def getMaxAction(self, state):
        return argmax(self.getActionValues(state))

    def getActionValues(self, state):
        values = array([self.network.activate(r_[state, one_to_n(i, self.numActions)]) for i in range(self.numActions)])
        return values

    def getValue(self, state, action):
        return self.network.activate(r_[state, one_to_n(action, self.numActions)])


@target('pybrain.rl.learners.valuebased.linearfa.rv_dot')
def rv_dot(x, y):
    return dot(ravel(x), ravel(y))


@target('pybrain.rl.learners.valuebased.linearfa.LinearFALearner')
class LinearFALearner:
    @events('_additionalInit')
    def __init__(self, num_actions, num_features, **kwargs):
        ValueBasedLearner.__init__(self)
        setAllArgs(self, kwargs)
        self.explorer = None
        self.num_actions = num_actions
        self.num_features = num_features
        if self.randomInit:
            self._theta = randn(self.num_actions, self.num_features) / 10.0
        else:
            self._theta = zeros((self.num_actions, self.num_features))
        self._additionalInit()
        self._behaviorPolicy = self._boltzmannPolicy
        self.reset()

    def _additionalInit(self):
        pass

    def _qValues(self, state):
        return dot(self._theta, state)

    def _greedyAction(self, state):
        return r_argmax(self._qValues(state))

    def _greedyPolicy(self, state):
        tmp = zeros(self.num_actions)
        tmp[self._greedyAction(state)] = 1
        return tmp

    def _boltzmannPolicy(self, state, temperature=1.0):
        tmp = self._qValues(state)
        return LinearFALearner._boltzmannProbs(tmp, temperature)

    @staticmethod
    def _boltzmannProbs(qvalues, temperature=1.0):
        if temperature == 0:
            tmp = zeros(len(qvalues))
            tmp[r_argmax(qvalues)] = 1.0
        else:
            tmp = qvalues / temperature
            tmp -= max(tmp)
            tmp = exp(clip(tmp, -20, 0))
        return tmp / sum(tmp)

    def reset(self):
        ValueBasedLearner.reset(self)
        self._callcount = 0
        self.newEpisode()

    def newEpisode(self):
        ValueBasedLearner.newEpisode(self)
        self._callcount += 1
        self.learningRate *= (self.learningRateDecay + self._callcount) / (self.learningRateDecay + self._callcount + 1.0)


@target('pybrain.rl.learners.valuebased.linearfa.Q_LinFA')
class Q_LinFA:
    def _updateWeights(self, state, action, reward, next_state):
        td_error = reward + self.rewardDiscount * max(dot(self._theta, next_state)) - dot(self._theta[action], state)
        self._theta[action] += self.learningRate * td_error * state


@target('pybrain.rl.learners.valuebased.linearfa.QLambda_LinFA')
class QLambda_LinFA:
    def newEpisode(self):
        LinearFALearner.newEpisode(self)
        self._etraces = zeros((self.num_actions, self.num_features))

    def _updateEtraces(self, state, action, responsibility=1.0):
        self._etraces *= self.rewardDiscount * self._lambda * responsibility
        self._etraces[action] += state

    def _updateWeights(self, state, action, reward, next_state):
        self._updateEtraces(state, action)
        td_error = reward + self.rewardDiscount * max(dot(self._theta, next_state)) - dot(self._theta[action], state)
        self._theta += self.learningRate * td_error * self._etraces


@target('pybrain.rl.learners.valuebased.linearfa.SARSALambda_LinFA')
class SARSALambda_LinFA:
    def _updateWeights(self, state, action, reward, next_state, next_action):
        td_error = reward + self.rewardDiscount * dot(self._theta[next_action], next_state) - dot(self._theta[action], state)
        self._updateEtraces(state, action)
        self._theta += self.learningRate * td_error * self._etraces


@target('pybrain.rl.learners.valuebased.linearfa.LSTDQLambda')
class LSTDQLambda:
    def _additionalInit(self):
        phi_size = self.num_actions * self.num_features
        self._A = zeros((phi_size, phi_size))
        self._b = zeros(phi_size)

    def _updateWeights(self, state, action, reward, next_state, learned_policy=None):
        if learned_policy is None:
            learned_policy = self._greedyPolicy
        self._updateEtraces(state, action)
        phi = zeros((self.num_actions, self.num_features))
        phi[action] += state
        phi_n = outer(learned_policy(next_state), next_state)
        self._A += outer(ravel(self._etraces), ravel(phi - self.rewardDiscount * phi_n))
        self._b += reward * ravel(self._etraces)
        self._theta = dot(pinv2(self._A), self._b).reshape(self.num_actions, self.num_features)


@target('pybrain.rl.learners.valuebased.linearfa.LSPI')
class LSPI:
    def _additionalInit(self):
        phi_size = self.num_actions * self.num_features
        if self.randomInit:
            self._A = randn(phi_size, phi_size) / 100.0
            self._b = randn(phi_size) / 100.0
        else:
            self._A = zeros((phi_size, phi_size))
            self._b = zeros(phi_size)
        self._untouched = ones(phi_size, dtype=bool)
        self._count = 0

    def _updateWeights(self, state, action, reward, next_state, next_action):
        phi = zeros((self.num_actions, self.num_features))
        phi[action] += state
        phi = ravel(phi)
        phi_n = zeros((self.num_actions, self.num_features))
        phi_n[next_action] += next_state
        phi_n = ravel(phi_n)
        self._A += outer(phi, phi - self.rewardDiscount * phi_n)
        self._b += reward * phi
        if self.lazyInversions is None or self._count % self.lazyInversions == 0:
            if self.exploring:
                self._untouched &= phi == 0
                res = dot(pinv2(self._A), self._b + self.explorationReward * self._untouched)
            else:
                res = dot(pinv2(self._A), self._b)
            self._theta = res.reshape(self.num_actions, self.num_features)
        self._count += 1


@target('pybrain.rl.learners.valuebased.linearfa.GQLambda')
class GQLambda:
    def _additionalInit(self):
        self._sec_weights = zeros((self.num_actions, self.num_features))

    def _updateWeights(self, state, action, reward, next_state, behavior_policy=None, learned_policy=None, outcome_reward=None):
        if learned_policy is None:
            learned_policy = self._greedyPolicy
        if behavior_policy is None:
            behavior_policy = self._behaviorPolicy
        responsibility = learned_policy(state)[action] / behavior_policy(state)[action]
        self._updateEtraces(state, action, responsibility)
        phi_bar = outer(learned_policy(next_state), next_state)
        td_error = reward + self.rewardDiscount * rv_dot(self._theta, phi_bar) - dot(self._theta[action], state)
        if outcome_reward is not None:
            td_error += (1 - self.rewardDiscount) * outcome_reward
        self._theta += self.learningRate * (td_error * self._etraces - self.rewardDiscount * (1 - self._lambda) * rv_dot(self._sec_weights, self._etraces) * phi_bar)
        phi = zeros((self.num_actions, self.num_features))
        phi[action] += state
        self._sec_weights += self.learningRate * self.sec_learningRate * (td_error * self._etraces - rv_dot(self._sec_weights, phi) * phi)

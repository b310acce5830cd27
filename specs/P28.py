

@target('pybrain.rl.agents.logging.LoggingAgent')
class LoggingAgent:
    def __init__(self, indim, outdim, **kwargs):
        self.setArgs(**kwargs)
        self.indim = indim
        self.outdim = outdim
        self.history = ReinforcementDataSet(indim, outdim)

    def integrateObservation(self, obs):
        self.lastobs = obs
        self.lastaction = None
        self.lastreward = None

    def getAction(self):
        assert self.lastobs is not None
        assert self.lastaction is None
        assert self.lastreward is None

    def giveReward(self, r):
        assert self.lastobs is not None
        assert self.lastaction is not None
        assert self.lastreward is None
        self.lastreward = r
        if self.logging:
            self.history.addSample(self.lastobs, self.lastaction, self.lastreward)

    def newEpisode(self):
        if self.logging:
            self.history.newSequence()

    def reset(self):
        self.lastobs = None
        self.lastaction = None
        self.lastreward = None
        self.history.clear()


@target('pybrain.rl.agents.learning.LearningAgent')
class LearningAgent:
    def __init__(self, module, learner=None):
        LoggingAgent.__init__(self, module.indim, module.outdim)
        self.module = module
        self.learner = learner
        if self.learner is not None:
            self.learner.module = self.module
            self.learner.dataset = self.history
        self.learning = True

    def _getLearning(self):
        return self.__learning

    def _setLearning(self, flag):
        if self.learner is not None:
            self.__learning = flag
        else:
            self.__learning = False

    def getAction(self):
        LoggingAgent.getAction(self)
        self.lastaction = self.module.activate(self.lastobs)
        if self.learning:
            self.lastaction = self.learner.explore(self.lastobs, self.lastaction)
        return self.lastaction

    def newEpisode(self):
        self.module.reset()
        if self.logging:
            self.history.newSequence()
        if self.learning:
            self.learner.newEpisode()

    def reset(self):
        LoggingAgent.reset(self)
        self.module.reset()
        if self.learning:
            self.learner.reset()

    def learn(self, episodes=1):
        if self.learning:
            self.learner.learnEpisodes(episodes)

    def _getLearning(self):
        return self.__learning


@target('pybrain.rl.agents.linearfa.LinearFA_Agent')
class LinearFA_Agent:
    def __init__(self, learner, **kwargs):
        LoggingAgent.__init__(self, learner.num_features, 1, **kwargs)
        self.learner = learner
        self.learner._behaviorPolicy = self._actionProbs
        self.reset()

    def _actionProbs(self, state):
        if self.greedy:
            return self.learner._greedyPolicy(state)
        elif self.epsilonGreedy:
            return self.learner._greedyPolicy(state) * (1 - self._expl_proportion) + self._expl_proportion / float(self.learner.num_actions)
        else:
            return self.learner._boltzmannPolicy(state, self._temperature)

    def getAction(self):
        self.lastaction = drawIndex(self._actionProbs(self.lastobs), True)
        if self.learning and (not self.learner.batchMode) and (self._oaro is not None):
            self.learner._updateWeights(*self._oaro + [self.lastaction])
            self._oaro = None
        return array([self.lastaction])

    def integrateObservation(self, obs):
        if self.learning and (not self.learner.batchMode) and (self.lastobs is not None):
            if self.learner.passNextAction:
                self._oaro = [self.lastobs, self.lastaction, self.lastreward, obs]
            else:
                self.learner._updateWeights(self.lastobs, self.lastaction, self.lastreward, obs)
        LoggingAgent.integrateObservation(self, obs)

    def reset(self):
        LoggingAgent.reset(self)
        self._temperature = self.init_temperature
        self._expl_proportion = self.init_exploration
        self.learner.reset()
        self._oaro = None
        self.newEpisode()

    def newEpisode(self):
        if self.logging:
            self.history.newSequence()
        if self.learning and (not self.learner.batchMode):
            self.learner.newEpisode()
        else:
            self._temperature *= self.temperature_decay
            self._expl_proportion *= self.exploration_decay
            self.learner.newEpisode()

    def learn(self):
        if not self.learning:
            return
        if not self.learner.batchMode:
            print('Learning is done online, and already finished.')
            return
        for seq in self.history:
            self.lastobs = None
            for obs, action, reward in seq:
                if self.lastobs is not None:
                    self.learner._updateWeights(self.lastobs, self.lastaction, self.lastreward, obs)
                self.lastobs = obs
                self.lastaction = action[0]
                self.lastreward = reward
            self.learner.newEpisode()


@target('pybrain.rl.experiments.experiment.Experiment')
class Experiment:
    def __init__(self, task, agent):
        self.task = task
        self.agent = agent
        self.stepid = 0

    def doInteractions(self, number=1):
        for _ in range(number):
            self._oneInteraction()
        return self.stepid

    def _oneInteraction(self):
        self.stepid += 1
        self.agent.integrateObservation(self.task.getObservation())
        self.task.performAction(self.agent.getAction())
        reward = self.task.getReward()
        self.agent.giveReward(reward)
        return reward


@target('pybrain.rl.experiments.episodic.EpisodicExperiment')
class EpisodicExperiment:
    def __init__(self, task, agent):
        if isinstance(agent, OptimizationAgent):
            self.doOptimization = True
            self.optimizer = agent.learner
            self.optimizer.setEvaluator(task, agent.module)
            self.optimizer.maxEvaluations = self.optimizer.numEvaluations
        else:
            Experiment.__init__(self, task, agent)

    def _oneInteraction(self):
        if self.doOptimization:
            raise Exception('When using a black-box learning algorithm, only full episodes can be done.')
        else:
            return Experiment._oneInteraction(self)

    def doEpisodes(self, number=1):
        if self.doOptimization:
            self.optimizer.maxEvaluations += number
            self.optimizer.learn()
        else:
            all_rewards = []
            for dummy in range(number):
                self.agent.newEpisode()
                rewards = []
                self.stepid = 0
                self.task.reset()
                while not self.task.isFinished():
                    r = self._oneInteraction()
                    rewards.append(r)
                all_rewards.append(rewards)
            return all_rewards


@target('pybrain.rl.experiments.continuous.ContinuousExperiment')
class ContinuousExperiment:
    def doInteractionsAndLearn(self, number=1):
        for _ in range(number):
            self._oneInteraction()
            self.agent.learn()
        return self.stepid


@target('pybrain.rl.experiments.queued.QueuedExperiment')
class QueuedExperiment:
    def run(self, queuelength, learningcycles=-1):
        self._fillQueue(queuelength)
        if learningcycles == -1:
            while True:
                self._stepQueueLoop()
        else:
            for _ in arange(learningcycles):
                self._stepQueueLoop()

    def _fillQueue(self, queuelength):
        self.agent.reset()
        self.doEpisodes(queuelength)

    def _stepQueueLoop(self):
        self.agent.learn()
        self.agent.history.removeSequence(0)
        self.doEpisodes(1)


@target('pybrain.rl.learners.learner.ExploringLearner')
class ExploringLearner:
    def explore(self, state, action):
        if self.explorer is not None:
            return self.explorer.activate(state, action)
        else:
            return action


@target('pybrain.rl.learners.learner.EpisodicLearner')
class EpisodicLearner:
    def learnEpisodes(self, episodes=1, *args, **kwargs):
        for _ in range(episodes):
            self.learn(*args, **kwargs)

    def newEpisode(self):
        if self.explorer is not None:
            self.explorer.newEpisode()

    def reset(self):
        pass


@target('pybrain.rl.learners.learner.DataSetLearner')
class DataSetLearner:
    def learnOnDataset(self, dataset, *args, **kwargs):
        self.dataset = dataset
        self.learnEpisodes(*args, **kwargs)

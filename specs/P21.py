

@target('pybrain.optimization.optimizer.BlackBoxOptimizer')
class BlackBoxOptimizer:
    def _getMinimize(self):
        return self.__minimize

    def _setMinimize(self, flag):
        self.__minimize = flag
        opp = False
        if flag is True:
            if self.mustMaximize:
                opp = True
                self.__minimize = False
        if flag is False:
            if self.mustMinimize:
                opp = True
                self.__minimize = True
        if self.__evaluator is not None:
            if opp is not self._wasOpposed:
                self._flipDirection()
        self._wasOpposed = opp

    def _flipDirection(self):
        self.__evaluator = oppositeFunction(self.__evaluator)
        if self.desiredEvaluation is not None:
            self.desiredEvaluation *= -1

    @alias
    def _bestFound(self):
        bestE = self.bestEvaluable.params.copy() if self._wasWrapped else self.bestEvaluable
        if self._wasOpposed and isscalar(self.bestEvaluation):
            bestF = -self.bestEvaluation
        else:
            bestF = self.bestEvaluation
        return (bestE, bestF)


@target('pybrain.rl.environments.functions.transformations.oppositeFunction')
def oppositeFunction(basef):
    if isinstance(basef, FitnessEvaluator):
        if isinstance(basef, FunctionEnvironment):
            ' added by JPQ '
            if isinstance(basef, MultiObjectiveFunction):
                res = MultiObjectiveFunction()
            else:
                res = FunctionEnvironment(basef.xdim, basef.xopt)
        else:
            res = FitnessEvaluator()
        res.f = lambda x: -basef.f(x)
        if not basef.desiredValue is None:
            res.desiredValue = -basef.desiredValue
        res.toBeMinimized = not basef.toBeMinimized
        return res
    else:
        return lambda x: -basef(x)


@target('pybrain.optimization.populationbased.pso.ParticleSwarmOptimizer')
class ParticleSwarmOptimizer:
    def best(self, particlelist):
        picker = min if self.minimize else max
        return picker(particlelist, key=lambda p: p.fitness)


@target('pybrain.optimization.populationbased.pso.Particle')
class Particle:
    def __init__(self, start, minimize):
        self.minimize = minimize
        self.dim = scipy.size(start)
        self.position = start
        self.velocity = scipy.zeros(scipy.size(start))
        self.bestPosition = scipy.zeros(scipy.size(start))
        self._fitness = None
        if self.minimize:
            self.bestFitness = scipy.inf
        else:
            self.bestFitness = -scipy.inf

    def _setFitness(self, value):
        self._fitness = value
        if self.minimize and value < self.bestFitness or (not self.minimize and value > self.bestFitness):
            self.bestFitness = value
            self.bestPosition = self.position.copy()


@target('pybrain.optimization.distributionbased.snes.SNES')
class SNES:
    def _currentEvaluations(self):
        fits = [self._allEvaluations[i] for i in self._pointers]
        if self._wasOpposed:
            fits = [-x for x in fits]
        return fits


@target('pybrain.optimization.distributionbased.xnes.XNES')
class XNES:
    def _currentEvaluations(self):
        fits = [self._allEvaluations[i] for i in self._pointers]
        if self._wasOpposed:
            fits = [-x for x in fits]
        return fits


@target('pybrain.optimization.distributionbased.rank1.Rank1NES')
class Rank1NES:
    def _currentEvaluations(self):
        fits = [self._allEvaluations[i] for i in self._pointers]
        if self._wasOpposed:
            fits = [-x for x in fits]
        return fits


@target('pybrain.optimization.distributionbased.fem.FEM')
class FEM:
    def _produceNewSample(self):
        chosenOne = drawIndex(self.alphas, True)
        mu = self.mus[chosenOne]
        if self.useAnticipatedMeanShift:
            if len(self.allsamples) % 2 == 1 and len(self.allsamples) > 1:
                if not (self.elitism and chosenOne == self.bestChosenCenter):
                    mu += self.meanShifts[chosenOne]
        if self.diagonalOnly:
            sample = normal(mu, self.sigmas[chosenOne])
        else:
            sample = multivariate_normal(mu, self.sigmas[chosenOne])
        if self.sampleElitism and len(self.allsamples) > self.windowSize and (len(self.allsamples) % self.windowSize == 0):
            sample = self.bestEvaluable.copy()
        fit = self._oneEvaluation(sample)
        if not self.minimize and fit >= self.bestEvaluation or (self.minimize and fit <= self.bestEvaluation) or len(self.allsamples) == 0:
            self.bestChosenCenter = chosenOne
            self.bestSigma = self.sigmas[chosenOne].copy()
        if self.minimize:
            fit = -fit
        self.allfitnesses.append(fit)
        self.allsamples.append(sample)
        return (sample, fit)


@target('pybrain.optimization.hillclimber.StochasticHillClimber')
class StochasticHillClimber:
    def _learnStep(self):
        if self.evaluatorIsNoisy:
            self.bestEvaluation = self._oneEvaluation(self.bestEvaluable)
        challenger = self.bestEvaluable.copy()
        challenger.mutate()
        newEval = self._oneEvaluation(challenger)
        if not self.minimize and newEval < self.bestEvaluation or (self.minimize and newEval > self.bestEvaluation):
            acceptProbability = exp(-abs(newEval - self.bestEvaluation) / self.temperature)
            if random() < acceptProbability:
                self.bestEvaluable, self.bestEvaluation = (challenger, newEval)

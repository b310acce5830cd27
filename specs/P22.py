

@target('pybrain.optimization.optimizer.BlackBoxOptimizer')
class BlackBoxOptimizer:
    @events('_learnStep','_notify')
    @ordered
    def learn(self, additionalLearningSteps=None):
        assert self.__evaluator is not None, 'No evaluator has been set. Learning cannot start.'
        if additionalLearningSteps is not None:
            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps
        while not self._stoppingCriterion():
            try:
                self._learnStep()
                self._notify()
                self.numLearningSteps += 1
            except DivergenceError:
                logging.warning('Algorithm diverged. Stopped after ' + str(self.numLearningSteps) + ' learning steps.')
                break
            except ValueError:
                logging.warning('Something numerical went wrong. Stopped after ' + str(self.numLearningSteps) + ' learning steps.')
                break
        return self._bestFound()

    def _stoppingCriterion(self):
        if self.maxEvaluations is not None and self.numEvaluations + self.batchSize > self.maxEvaluations:
            return True
        if self.desiredEvaluation is not None and self.bestEvaluation is not None and isscalar(self.bestEvaluation):
            if self.minimize and self.bestEvaluation <= self.desiredEvaluation or (not self.minimize and self.bestEvaluation >= self.desiredEvaluation):
                return True
        if self.maxLearningSteps is not None and self.numLearningSteps >= self.maxLearningSteps:
            return True
        return False


@target('pybrain.optimization.hillclimber.HillClimber')
class HillClimber:
    def batchSize(self):
        if self.evaluatorIsNoisy:
            return 2
        else:
            return 1


@target('pybrain.optimization.neldermead.NelderMead')
class NelderMead:
    def _callback(self, *_):
        if self._stoppingCriterion():
            raise DesiredFoundException()

    def _learnStep(self):
        try:
            fmin(func=self._oneEvaluation, x0=self.bestEvaluable, callback=self._callback, ftol=self.stopPrecision, maxfun=self.maxEvaluations - self.numEvaluations - 1, disp=self.verbose)
        except DesiredFoundException:
            pass
        self.maxLearningSteps = self.numLearningSteps


@target('pybrain.optimization.populationbased.es.ES')
class ES:
    def batchSize(self):
        if self.evaluatorIsNoisy:
            return self._popsize
        else:
            return self.lambada


@target('pybrain.optimization.populationbased.evolution.Evolution')
class Evolution:
    def batchSize(self):
        return self.populationSize


@target('pybrain.optimization.populationbased.pso.ParticleSwarmOptimizer')
class ParticleSwarmOptimizer:
    def batchSize(self):
        return self.size


@target('pybrain.optimization.memetic.memetic.MemeticSearch')
class MemeticSearch:
    def batchSize(self):
        return self.localSteps


@target('pybrain.optimization.memetic.innermemetic.InnerMemeticSearch')
class InnerMemeticSearch:
    def batchSize(self):
        if self.evaluatorIsNoisy:
            return (self.mu + self.lambada) * self.localSteps
        else:
            return self.lambada * self.localSteps


@target('pybrain.optimization.distributionbased.cmaes.CMAES')
class CMAES:
    def batchSize(self):
        return int(4 + floor(3 * log(self.numParameters)))


@target('pybrain.optimization.distributionbased.snes.SNES')
class SNES:
    def _stoppingCriterion(self):
        if DistributionBasedOptimizer._stoppingCriterion(self):
            return True
        elif max(abs(self._sigmas)) < self.varianceCutoff:
            return True
        else:
            return False


@target('pybrain.optimization.distributionbased.rank1.Rank1NES')
class Rank1NES:
    def _stoppingCriterion(self):
        if DistributionBasedOptimizer._stoppingCriterion(self):
            return True
        elif self._getMaxVariance < self.varianceCutoff:
            return True
        else:
            return False

    def _getMaxVariance(self):
        return exp(self._logDetA * 2 / self.numParameters)


@target('pybrain.optimization.distributionbased.ves.VanillaGradientEvolutionStrategies')
class VanillaGradientEvolutionStrategies:
    def _hasConverged(self):
        eigs = abs(diag(self.factorSigma))
        return min(eigs) < 1e-10


@target('pybrain.optimization.populationbased.coevolution.coevolution.Coevolution')
class Coevolution:
    def learn(self, maxSteps=None):
        if maxSteps != None:
            maxSteps += self.steps
        while True:
            if maxSteps != None and self.steps + self._stepsPerGeneration() > maxSteps:
                break
            if self.maxEvaluations != None and self.steps + self._stepsPerGeneration() > self.maxEvaluations:
                break
            if self.maxGenerations != None and self.generation >= self.maxGenerations:
                break
            self._oneGeneration()
        return self.hallOfFame[-1]

    def _stepsPerGeneration(self):
        res = self.populationSize * self.tournamentSize * 2
        return res

    def _numSelected(self):
        return int(self.populationSize * self.selectionProportion)


@target('pybrain.optimization.populationbased.coevolution.multipopulationcoevolution.MultiPopulationCoevolution')
class MultiPopulationCoevolution:
    def _stepsPerGeneration(self):
        if self.tournamentSize == None:
            return 2 * self.populationSize ** 2
        else:
            return Coevolution._stepsPerGeneration(self)

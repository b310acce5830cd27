

@target('pybrain.optimization.optimizer.BlackBoxOptimizer')
class BlackBoxOptimizer:
    @events('setEvaluator')
    def __init__(self, evaluator=None, initEvaluable=None, **kwargs):
        self.__minimize = None
        self.__evaluator = None
        setAllArgs(self, kwargs)
        self.numEvaluations = 0
        self.numLearningSteps = 0
        if self.storeAllEvaluated:
            self._allEvaluated = []
            self._allEvaluations = []
        elif self.storeAllEvaluations:
            self._allEvaluations = []
        if evaluator is not None:
            self.setEvaluator(evaluator, initEvaluable)

    @events('_setInitEvaluable','_additionalInit','_flipDirection')
    @ordered
    def setEvaluator(self, evaluator, initEvaluable=None):
        if isinstance(evaluator, FitnessEvaluator):
            if self.desiredEvaluation is None:
                self.desiredEvaluation = evaluator.desiredValue
            if self.minimize is None:
                self.minimize = evaluator.toBeMinimized
            if isinstance(evaluator, FunctionEnvironment):
                if self.numParameters is None:
                    self.numParameters = evaluator.xdim
                elif self.numParameters != evaluator.xdim:
                    raise ValueError('Parameter dimension mismatch: evaluator expects ' + str(evaluator.xdim) + ' but it was set to ' + str(self.numParameters) + '.')
                'added by JPQ to handle boundaries on the parameters'
                self.evaluator = evaluator
                if self.xBound is None:
                    self.xBound = evaluator.xbound
                if self.feasible is None:
                    self.feasible = evaluator.feasible
                if self.constrained is None:
                    self.constrained = evaluator.constrained
                if self.violation is None:
                    self.violation = evaluator.violation
        if self.minimize is None:
            self.minimize = False
        self.__evaluator = evaluator
        if self._wasOpposed:
            self._flipDirection()
        self._setInitEvaluable(initEvaluable)
        self.bestEvaluation = None
        self.bestEvaluable = self._initEvaluable
        self._additionalInit()

    def _setInitEvaluable(self, evaluable):
        if evaluable is None:
            if self.numParameters is not None:
                evaluable = randn(self.numParameters)
            else:
                raise ValueError('Could not determine the dimensionality of the evaluator. ' + 'Please provide an initial search point.')
        if isinstance(evaluable, list):
            evaluable = array(evaluable)
        if isinstance(evaluable, ndarray):
            pc = ParameterContainer(len(evaluable))
            pc._setParameters(evaluable)
            self._wasWrapped = True
            evaluable = pc
        self._initEvaluable = evaluable
        if isinstance(self._initEvaluable, ParameterContainer):
            if self.numParameters is None:
                self.numParameters = len(self._initEvaluable)
            elif self.numParameters != len(self._initEvaluable):
                raise ValueError('Parameter dimension mismatch: evaluator expects ' + str(self.numParameters) + ' but the evaluable has ' + str(len(self._initEvaluable)) + '.')

    @alias
    def _bestFound(self):
        bestE = self.bestEvaluable.params.copy() if self._wasWrapped else self.bestEvaluable
        if self._wasOpposed and isscalar(self.bestEvaluation):
            bestF = -self.bestEvaluation
        else:
            bestF = self.bestEvaluation
        return (bestE, bestF)

    @alias
    @pure('_BlackBoxOptimizer__evaluator')
    def _oneEvaluation(self, evaluable):
        if self._wasUnwrapped:
            self.wrappingEvaluable._setParameters(evaluable)
            res = self.__evaluator(self.wrappingEvaluable)
        elif self._wasWrapped:
            res = self.__evaluator(evaluable.params)
        else:
            res = self.__evaluator(evaluable)
            ' added by JPQ '
            if self.constrained:
                self.feasible = self.__evaluator.outfeasible
                self.violation = self.__evaluator.outviolation
        if isscalar(res):
            if isnan(res) or isinf(res):
                raise DivergenceError
            if self.numEvaluations == 0 or self.bestEvaluation is None or (self.minimize and res <= self.bestEvaluation) or (not self.minimize and res >= self.bestEvaluation):
                self.bestEvaluation = res
                self.bestEvaluable = evaluable.copy()
        self.numEvaluations += 1
        if self.storeAllEvaluated:
            if self._wasUnwrapped:
                self._allEvaluated.append(self.wrappingEvaluable.copy())
            elif self._wasWrapped:
                self._allEvaluated.append(evaluable.params.copy())
            else:
                self._allEvaluated.append(evaluable.copy())
        if self.storeAllEvaluations:
            if self._wasOpposed and isscalar(res):
                ' added by JPQ '
                if self.constrained:
                    self._allEvaluations.append([-res, self.feasible, self.violation])
                else:
                    self._allEvaluations.append(-res)
            else:
                ' added by JPQ '
                if self.constrained:
                    self._allEvaluations.append([res, self.feasible, self.violation])
                else:
                    self._allEvaluations.append(res)
        ' added by JPQ '
        if self.constrained:
            return [res, self.feasible, self.violation]
        else:
            return res

    def _notify(self):
        if self.verbose:
            print(('Step:', self.numLearningSteps, 'best:', self.bestEvaluation))
        if self.listener is not None:
            self.listener(self.bestEvaluable, self.bestEvaluation)


@target('pybrain.optimization.optimizer.ContinuousOptimizer')
class ContinuousOptimizer:
    @raises
    def _setInitEvaluable(self, evaluable):
        if isinstance(evaluable, ParameterContainer):
            self.wrappingEvaluable = evaluable.copy()
            self._wasUnwrapped = True
        elif not (evaluable is None or isinstance(evaluable, list) or isinstance(evaluable, ndarray)):
            raise ValueError('Continuous optimization algorithms require a list, array or' + ' ParameterContainer as evaluable.')
        BlackBoxOptimizer._setInitEvaluable(self, evaluable)
        self._wasWrapped = False
        self._initEvaluable = self._initEvaluable.params.copy()

    @alias
    def _bestFound(self):
        bestE, bestF = BlackBoxOptimizer._bestFound(self)
        if self._wasUnwrapped:
            self.wrappingEvaluable._setParameters(bestE)
            bestE = self.wrappingEvaluable.copy()
        return (bestE, bestF)


@target('pybrain.optimization.optimizer.TopologyOptimizer')
class TopologyOptimizer:
    def _setInitEvaluable(self, evaluable):
        BlackBoxOptimizer._setInitEvaluable(self, evaluable)
        if not isinstance(evaluable, TopologyEvolvable):
            if isinstance(evaluable, Module):
                self._initEvaluable = MaskedModule(self._initEvaluable)
            else:
                self._initEvaluable = MaskedParameters(self._initEvaluable, returnZeros=True)


@target('pybrain.optimization.hillclimber.HillClimber')
class HillClimber:
    def _additionalInit(self):
        self._oneEvaluation(self._initEvaluable)

    def _learnStep(self):
        if self.evaluatorIsNoisy:
            self.bestEvaluation = self._oneEvaluation(self.bestEvaluable)
        challenger = self.bestEvaluable.copy()
        challenger.mutate()
        self._oneEvaluation(challenger)


@target('pybrain.optimization.hillclimber.StochasticHillClimber')
class StochasticHillClimber:
    def _learnStep(self):
        if self.evaluatorIsNoisy:
            self.bestEvaluation = self._oneEvaluation(self.bestEvaluable)
        challenger = self.bestEvaluable.copy()
        challenger.mutate()
        newEval = self._oneEvaluation(challenger)
        if not self.minimize and newEval < self.bestEvaluation or (self.minimize and newEval > self.bestEvaluation):
            acceptProbability = exp(-abs(newEval - self.bestEvaluation) / self.temperature)
            if random() < acceptProbability:
                self.bestEvaluable, self.bestEvaluation = (challenger, newEval)


@target('pybrain.optimization.randomsearch.RandomSearch')
class RandomSearch:
    def _additionalInit(self):
        self._oneEvaluation(self._initEvaluable)

    def _learnStep(self):
        new = self._initEvaluable.copy()
        new.randomize()
        self._oneEvaluation(new)


@target('pybrain.optimization.neldermead.NelderMead')
class NelderMead:
    def _callback(self, *_):
        if self._stoppingCriterion():
            raise DesiredFoundException()

    @events('fmin')
    def _learnStep(self):
        try:
            fmin(func=self._oneEvaluation, x0=self.bestEvaluable, callback=self._callback, ftol=self.stopPrecision, maxfun=self.maxEvaluations - self.numEvaluations - 1, disp=self.verbose)
        except DesiredFoundException:
            pass
        self.maxLearningSteps = self.numLearningSteps

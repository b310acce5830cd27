

@target('pybrain.optimization.finitedifference.fd.FiniteDifferences')
class FiniteDifferences:
    def _setInitEvaluable(self, evaluable):
        ContinuousOptimizer._setInitEvaluable(self, evaluable)
        self.current = self._initEvaluable
        self.gd = GradientDescent()
        self.gd.alpha = self.learningRate
        if self.learningRateDecay is not None:
            self.gd.alphadecay = self.learningRateDecay
        self.gd.momentum = self.momentum
        self.gd.rprop = self.rprop
        self.gd.init(self._initEvaluable)

    def perturbation(self):
        deltas = random.uniform(-self.epsilon, self.epsilon, self.numParameters)
        self.epsilon *= self.gamma
        return deltas

    def _learnStep(self):
        D = ones((self.batchSize, self.numParameters))
        R = zeros((self.batchSize, 1))
        for i in range(self.batchSize):
            deltas = self.perturbation()
            x = self.current + deltas
            D[i, :] = deltas
            R[i, :] = self._oneEvaluation(x)
        beta = dot(pinv(D), R)
        gradient = ravel(beta)
        self.current = self.gd(gradient)


@target('pybrain.optimization.finitedifference.spsa.SimpleSPSA')
class SimpleSPSA:
    def _additionalInit(self):
        self.baseline = None

    def perturbation(self):
        deltas = (random.randint(0, 2, self.numParameters) * 2 - 1) * self.epsilon
        self.epsilon *= self.gamma
        return deltas

    def _learnStep(self):
        deltas = self.perturbation()
        reward1 = self._oneEvaluation(self.current + deltas)
        reward2 = self._oneEvaluation(self.current - deltas)
        self.mreward = (reward1 + reward2) / 2.0
        if self.baseline is None:
            self.baseline = self.mreward * 0.99
            fakt = 0.0
        elif reward1 != reward2:
            fakt = (reward1 - reward2) / (2.0 * self.bestEvaluation - reward1 - reward2)
        else:
            fakt = 0.0
        self.baseline = 0.9 * self.baseline + 0.1 * self.mreward
        self.current = self.gd(fakt * self.epsilon * self.epsilon / deltas)


@target('pybrain.optimization.finitedifference.pgpe.PGPE')
class PGPE:
    def _additionalInit(self):
        if self.sigmaLearningRate is None:
            self.sigmaLearningRate = self.learningRate
        self.gdSig = GradientDescent()
        self.gdSig.alpha = self.sigmaLearningRate
        self.gdSig.rprop = self.rprop
        self.sigList = ones(self.numParameters) * self.epsilon
        self.gdSig.init(self.sigList)
        self.baseline = None

    def perturbation(self):
        return random.normal(0.0, self.sigList)

    def _learnStep(self):
        deltas = self.perturbation()
        reward1 = self._oneEvaluation(self.current + deltas)
        reward2 = self._oneEvaluation(self.current - deltas)
        self.mreward = (reward1 + reward2) / 2.0
        if self.baseline is None:
            self.baseline = self.mreward
            fakt = 0.0
            fakt2 = 0.0
        else:
            if reward1 != reward2:
                fakt = (reward1 - reward2) / (2.0 * self.bestEvaluation - reward1 - reward2)
            else:
                fakt = 0.0
            norm = self.bestEvaluation - self.baseline
            if norm != 0.0:
                fakt2 = (self.mreward - self.baseline) / (self.bestEvaluation - self.baseline)
            else:
                fakt2 = 0.0
        self.baseline = 0.9 * self.baseline + 0.1 * self.mreward
        self.current = self.gd(fakt * deltas - self.current * self.sigList * self.wDecay)
        if fakt2 > 0.0:
            if self.exploration == 'global':
                self.sigList = self.gdSig(fakt2 * ((deltas ** 2).sum() - (self.sigList ** 2).sum()) / (self.sigList * float(self.numParameters)))
            elif self.exploration == 'local':
                self.sigList = self.gdSig(fakt2 * (deltas * deltas - self.sigList * self.sigList) / self.sigList)
            elif self.exploration == 'cma':
                raise NotImplementedError()
            else:
                raise NotImplementedError(str(self.exploration) + ' not a known exploration parameter setting.')


@target('pybrain.tools.rankingfunctions.rankedFitness')
def rankedFitness(R):
    res = zeros_like(R)
    l = list(zip(R, list(range(len(R)))))
    l.sort()
    for i, (_, j) in enumerate(l):
        res[j] = i
    return res


@target('pybrain.tools.rankingfunctions.normalizedFitness')
def normalizedFitness(R):
    return array((R - mean(R)) / sqrt(var(R))).flatten()


@target('pybrain.tools.rankingfunctions.RankingFunction')
class RankingFunction:
    def __call__(self, R):
        res = rankedFitness(R)
        return res / float(max(res))


@target('pybrain.tools.rankingfunctions.TournamentSelection')
class TournamentSelection:
    def __call__(self, R):
        res = zeros(len(R))
        for i in range(len(R)):
            l = [i]
            for dummy in range(self.tournamentSize - 1):
                randindex = i
                while randindex == i:
                    randindex = randint(0, len(R) - 1)
                l.append(randindex)
            fits = [R[x] for x in l]
            res[argmax(fits)] += 1
        return res


@target('pybrain.tools.rankingfunctions.SmoothGiniRanking')
class SmoothGiniRanking:
    def __call__(self, R):
    
        def smoothup(x):
            return power(x, 2 / self.gini - 1)
        ranks = rankedFitness(R)
        res = zeros(len(R))
        for i in range(len(ranks)):
            res[i] = ranks[i] * self.linearComponent + smoothup(ranks[i] / float(len(R) - 1)) * (1 - self.linearComponent)
        res /= max(res)
        return res


@target('pybrain.tools.rankingfunctions.ExponentialRanking')
class ExponentialRanking:
    def __call__(self, R):
        ranks = rankedFitness(R)
        ranks = ranks / (len(R) - 1.0)
        return exp(ranks * self.temperature)


@target('pybrain.tools.rankingfunctions.HansenRanking')
class HansenRanking:
    def __call__(self, R):
        ranks = rankedFitness(R)
        return array([max(0.0, x) for x in log(len(R) / 2.0 + 1.0) - log(len(R) - array(ranks))])


@target('pybrain.tools.rankingfunctions.TopSelection')
class TopSelection:
    def __call__(self, R):
        res = zeros(len(R))
        ranks = rankedFitness(R)
        cutoff = len(R) * (1.0 - self.topFraction)
        for i in range(len(R)):
            if ranks[i] >= cutoff:
                res[i] = 1.0
            else:
                res[i] = 0.0
        return res


@target('pybrain.tools.rankingfunctions.TopLinearRanking')
class TopLinearRanking:
    def __call__(self, R):
        res = zeros(len(R))
        ranks = rankedFitness(R)
        cutoff = len(R) * (1.0 - self.topFraction)
        for i in range(len(R)):
            if ranks[i] >= cutoff:
                res[i] = ranks[i] - cutoff
            else:
                res[i] = 0.0
        res /= max(res)
        return res

    def getPossibleParameters(self, numberOfSamples):
        x = 1.0 / float(numberOfSamples)
        return arange(x * 2, 1 + x, x)

    def setParameter(self, p):
        self.topFraction = p


@target('pybrain.tools.rankingfunctions.BilinearRanking')
class BilinearRanking:
    def __call__(self, R):
        ranks = rankedFitness(R)
        res = zeros(len(R))
        transitionpoint = 4 * len(ranks) / 5
        for i in range(len(ranks)):
            if ranks[i] < transitionpoint:
                res[i] = ranks[i]
            else:
                res[i] = ranks[i] + (ranks[i] - transitionpoint) * self.bilinearFactor
        res /= max(res)
        return res

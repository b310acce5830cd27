

@target('pybrain.optimization.distributionbased.cmaes.CMAES')
@events('_oneEvaluation')
class CMAES:
    def _additionalInit(self):
        self.center = self._initEvaluable
        self.stepSize = self.initStepSize
        if self.storeAllCenters:
            self._allCenters = []
        self.mu = int(floor(self.batchSize / 2))
        self.weights = log(self.mu + 1) - log(array(range(1, self.mu + 1)))
        self.weights /= sum(self.weights)
        self.muEff = sum(self.weights) ** 2 / sum(power(self.weights, 2))
        self.cumCov = 4 / float(self.numParameters + 4)
        self.cumStep = (self.muEff + 2) / (self.numParameters + self.muEff + 3)
        self.muCov = self.muEff
        self.covLearningRate = 1 / self.muCov * 2 / (self.numParameters + 1.4) ** 2 + (1 - 1 / self.muCov) * ((2 * self.muEff - 1) / ((self.numParameters + 2) ** 2 + 2 * self.muEff))
        self.dampings = 1 + 2 * max(0, sqrt((self.muEff - 1) / (self.numParameters + 1)) - 1) + self.cumStep
        self.covPath = zeros(self.numParameters)
        self.stepPath = zeros(self.numParameters)
        self.B = eye(self.numParameters, self.numParameters)
        self.D = eye(self.numParameters, self.numParameters)
        self.C = dot(dot(self.B, self.D), dot(self.B, self.D).T)
        self.chiN = self.numParameters ** 0.5 * (1 - 1.0 / (4.0 * self.numParameters) + 1 / (21.0 * self.numParameters ** 2))

    def _learnStep(self):
        arz = randn(self.numParameters, self.batchSize)
        arx = tile(self.center.reshape(self.numParameters, 1), (1, self.batchSize)) + self.stepSize * dot(dot(self.B, self.D), arz)
        arfitness = zeros(self.batchSize)
        for k in range(self.batchSize):
            arfitness[k] = self._oneEvaluation(arx[:, k])
        arfitness, arindex = sorti(arfitness)
        arz = arz[:, arindex]
        arx = arx[:, arindex]
        arzsel = arz[:, range(self.mu)]
        arxsel = arx[:, range(self.mu)]
        arxmut = arxsel - tile(self.center.reshape(self.numParameters, 1), (1, self.mu))
        zmean = dot(arzsel, self.weights)
        self.center = dot(arxsel, self.weights)
        if self.storeAllCenters:
            self._allCenters.append(self.center)
        self.stepPath = (1 - self.cumStep) * self.stepPath + sqrt(self.cumStep * (2 - self.cumStep) * self.muEff) * dot(self.B, zmean)
        hsig = norm(self.stepPath) / sqrt(1 - (1 - self.cumStep) ** (2 * self.numEvaluations / float(self.batchSize))) / self.chiN < 1.4 + 2.0 / (self.numParameters + 1)
        self.covPath = (1 - self.cumCov) * self.covPath + hsig * sqrt(self.cumCov * (2 - self.cumCov) * self.muEff) * dot(dot(self.B, self.D), zmean)
        self.C = (1 - self.covLearningRate) * self.C + self.covLearningRate * (1 / self.muCov) * (outer(self.covPath, self.covPath) + (1 - hsig) * self.cumCov * (2 - self.cumCov) * self.C) + self.covLearningRate * (1 - 1 / self.muCov) * dot(dot(arxmut, diag(self.weights)), arxmut.T)
        self.stepSize *= exp(self.cumStep / self.dampings * (norm(self.stepPath) / self.chiN - 1))
        self.C = (self.C + self.C.T) / 2
        Ev, self.B = eig(self.C)
        Ev = real(Ev)
        self.D = diag(sqrt(Ev))
        self.B = real(self.B)
        if arfitness[0] == arfitness[-1] or abs(arfitness[0] - arfitness[-1]) / (abs(arfitness[0]) + abs(arfitness[-1])) <= self.stopPrecision:
            if self.verbose:
                print('Converged.')
            self.maxLearningSteps = self.numLearningSteps
        if min(Ev) > 100000.0:
            if self.verbose:
                print('Diverged.')
            self.maxLearningSteps = self.numLearningSteps


@target('pybrain.optimization.distributionbased.cmaes.sorti')
def sorti(vect):
    tmp = sorted([(x_y[1], x_y[0]) for x_y in enumerate(ravel(vect))])
    res1 = array([x[0] for x in tmp])
    res2 = array([int(x[1]) for x in tmp])
    return (res1, res2)


@target('pybrain.optimization.distributionbased.snes.SNES')
@events('_oneEvaluation')
class SNES:
    def _initLearningRate(self):
        return 0.6 * (3 + log(self.numParameters)) / 3 / sqrt(self.numParameters)

    def _initBatchSize(self):
        return 4 + int(floor(3 * log(self.numParameters)))

    def _additionalInit(self):
        if self.covLearningRate is None:
            self.covLearningRate = self._initLearningRate()
        if self.batchSize is None:
            self.batchSize = self._initBatchSize()
        self._center = self._initEvaluable.copy()
        self._sigmas = ones(self.numParameters) * self.initVariance

    def _population(self):
        if self._wasUnwrapped:
            return [self._allEvaluated[i].params for i in self._pointers]
        else:
            return [self._allEvaluated[i] for i in self._pointers]

    def _sample2base(self, sample):
        return self._sigmas * sample + self._center

    def _base2sample(self, e):
        return (e - self._center) / self._sigmas

    def _produceSamples(self):
        if self.clearStorage:
            self._allEvaluated = []
            self._allEvaluations = []
        tmp = [self._sample2base(self._produceSample()) for _ in range(self.batchSize)]
        list(map(self._oneEvaluation, tmp))
        self._pointers = list(range(len(self._allEvaluated) - self.batchSize, len(self._allEvaluated)))

    def _learnStep(self):
        self._produceSamples()
        samples = list(map(self._base2sample, self._population))
        utilities = self.shapingFunction(self._currentEvaluations)
        utilities /= sum(utilities)
        if self.uniformBaseline:
            utilities -= 1.0 / self.batchSize
        dCenter = dot(utilities, samples)
        self._center += self.centerLearningRate * self._sigmas * dCenter
        covGradient = dot(utilities, [s ** 2 - 1 for s in samples])
        dA = 0.5 * self.covLearningRate * covGradient
        self._sigmas = self._sigmas * exp(dA)


@target('pybrain.optimization.distributionbased.xnes.XNES')
@events('_oneEvaluation')
class XNES:
    @strict
    def _additionalInit(self):
        dim = self.numParameters
        if self.covLearningRate is None:
            self.covLearningRate = 0.6 * (3 + log(dim)) / dim / sqrt(dim)
        if self.scaleLearningRate is None:
            self.scaleLearningRate = self.covLearningRate
        if self.batchSize is None:
            if self.importanceMixing:
                self.batchSize = 10 * dim
            else:
                self.batchSize = 4 + int(floor(3 * log(dim)))
        self._center = self._initEvaluable.copy()
        self._A = eye(self.numParameters)
        self._invA = eye(self.numParameters)
        self._logDetA = 0.0
        self._allPointers = []
        self._allGenSteps = [0]
        if self.storeAllDistributions:
            self._allDistributions = [(self._center.copy(), self._A.copy())]

    @strict
    def _learnStep(self):
        I = eye(self.numParameters)
        self._produceSamples()
        utilities = self.shapingFunction(self._currentEvaluations)
        utilities /= sum(utilities)
        if self.uniformBaseline:
            utilities -= 1.0 / self.batchSize
        samples = array(list(map(self._base2sample, self._population)))
        dCenter = dot(samples.T, utilities)
        covGradient = dot(array([outer(s, s) - I for s in samples]).T, utilities)
        covTrace = trace(covGradient)
        covGradient -= covTrace / self.numParameters * I
        dA = 0.5 * (self.scaleLearningRate * covTrace / self.numParameters * I + self.covLearningRate * covGradient)
        self._lastLogDetA = self._logDetA
        self._lastInvA = self._invA
        self._center += self.centerLearningRate * dot(self._A, dCenter)
        self._A = dot(self._A, expm(dA))
        self._invA = dot(expm(-dA), self._invA)
        self._logDetA += 0.5 * self.scaleLearningRate * covTrace
        if self.storeAllDistributions:
            self._allDistributions.append((self._center.copy(), self._A.copy()))

    def _lastA(self):
        return self._allDistributions[-2][1]

    def _lastCenter(self):
        return self._allDistributions[-2][0]

    def _population(self):
        if self._wasUnwrapped:
            return [self._allEvaluated[i].params for i in self._pointers]
        else:
            return [self._allEvaluated[i] for i in self._pointers]

    def _sample2base(self, sample):
        return dot(self._A, sample) + self._center

    def _base2oldsample(self, e):
        return dot(self._lastInvA, e - self._lastCenter)

    def _base2sample(self, e):
        return dot(self._invA, e - self._center)

    def _oldpdf(self, s):
        s = self._base2oldsample(self._sample2base(s))
        return exp(-0.5 * dot(s, s) - self._lastLogDetA)

    def _newpdf(self, s):
        return exp(-0.5 * dot(s, s) - self._logDetA)

    def _produceSamples(self):
        reuseindices = []
        if self.numLearningSteps == 0 or not self.importanceMixing:
            [self._oneEvaluation(self._sample2base(self._produceSample())) for _ in range(self.batchSize)]
            self._pointers = list(range(len(self._allEvaluated) - self.batchSize, len(self._allEvaluated)))
        else:
            reuseindices, newpoints = importanceMixing(list(map(self._base2sample, self._population)), self._oldpdf, self._newpdf, self._produceSample, self.forcedRefresh)
            [self._oneEvaluation(self._sample2base(s)) for s in newpoints]
            self._pointers = [self._pointers[i] for i in reuseindices] + list(range(len(self._allEvaluated) - self.batchSize + len(reuseindices), len(self._allEvaluated)))
        self._allGenSteps.append(self._allGenSteps[-1] + self.batchSize - len(reuseindices))
        self._allPointers.append(self._pointers)


@target('pybrain.optimization.distributionbased.rank1.Rank1NES')
@events('_oneEvaluation')
class Rank1NES:
    @strict
    def _additionalInit(self):
        if self.covLearningRate is None:
            self.covLearningRate = self._initLearningRate()
        if self.scaleLearningRate is None:
            self.scaleLearningRate = self.covLearningRate
        if self.batchSize is None:
            self.batchSize = self._initBatchSize()
        self._center = self._initEvaluable.copy()
        self._logDetA = log(self.initVariance) / 2
        self._principalVector = randn(self.numParameters)
        self._principalVector /= sqrt(dot(self._principalVector, self._principalVector))
        self._allDistributions = [(self._center.copy(), self._principalVector.copy(), self._logDetA)]
        self.covLearningRate = 0.1
        self.batchSize = int(max(5, max(4 * log2(self.numParameters), 0.2 * self.numParameters)))
        self.uniformBaseline = False
        self.scaleLearningRate = 0.1

    def _population(self):
        return [self._allEvaluated[i] for i in self._pointers]

    @strict
    def _learnStep(self):
        samples = [self._produceSample() for _ in range(self.batchSize)]
        u = self._principalVector
        a = self._logDetA
        W = [s[:-1] + u * s[-1] for s in samples]
        points = [self._center + exp(a) * w for w in W]
        list(map(self._oneEvaluation, points))
        self._pointers = list(range(len(self._allEvaluated) - self.batchSize, len(self._allEvaluated)))
        utilities = self.shapingFunction(self._currentEvaluations)
        utilities /= sum(utilities)
        if self.uniformBaseline:
            utilities -= 1.0 / self.batchSize
        W = [w for i, w in enumerate(W) if utilities[i] != 0]
        utilities = [uw for uw in utilities if uw != 0]
        dim = self.numParameters
        r = sqrt(dot(u, u))
        v = u / r
        c = log(r)
        wws = array([dot(w, w) for w in W])
        wvs = array([dot(v, w) for w in W])
        wv2s = array([wv ** 2 for wv in wvs])
        dCenter = exp(self._logDetA) * dot(utilities, W)
        self._center += self.centerLearningRate * dCenter
        kp = ((r ** 2 - dim + 2) * wv2s - (r ** 2 + 1) * wws) / (2 * r * (dim - 1.0))
        da = 1.0 / (2 * (dim - 1)) * dot(wws - dim - (wv2s - 1), utilities)
        du = dot(kp, utilities) * v + dot(multiply(wvs / r, utilities), W)
        dc = dot(du, v) / r
        dv = du / r - dc * v
        epsilon = min(self.covLearningRate, 2 * sqrt(r ** 2 / dot(du, du)))
        if dc > 0:
            self._principalVector += epsilon * du
        else:
            c += epsilon * dc
            v += epsilon * dv
            v /= sqrt(dot(v, v))
            r = exp(c)
            self._principalVector = r * v
        self._lastLogDetA = self._logDetA
        self._logDetA += self.scaleLearningRate * da
        if self.storeAllDistributions:
            self._allDistributions.append((self._center.copy(), self._principalVector.copy(), self._logDetA))

    def _produceSample(self):
        return randn(self.numParameters + 1)


@target('pybrain.optimization.distributionbased.ves.VanillaGradientEvolutionStrategies')
@events('_oneEvaluation')
class VanillaGradientEvolutionStrategies:
    def _additionalInit(self):
        xdim = self.numParameters
        assert not self.diagonalOnly, 'Diagonal-only not yet supported'
        self.numDistrParams = xdim + xdim * (xdim + 1) // 2
        if self.momentum != None:
            self.momentumVector = zeros(self.numDistrParams)
        if self.learningRateSigma == None:
            self.learningRateSigma = self.learningRate
        if self.batchSize is None:
            self.batchSize = 10 * self.numParameters
        if self.rangemins is None:
            self.rangemins = -ones(xdim)
        if self.rangemaxs is None:
            self.rangemaxs = ones(xdim)
        if self.initCovariances is None:
            if self.diagonalOnly:
                self.initCovariances = ones(xdim)
            else:
                self.initCovariances = eye(xdim)
        self.x = rand(xdim) * (self.rangemaxs - self.rangemins) + self.rangemins
        self.sigma = dot(eye(xdim), self.initCovariances)
        self.factorSigma = cholesky(self.sigma)
        self.allSamples = []
        self.allFitnesses = []
        self.allGenerated = [0]
        self.allCenters = [self.x.copy()]
        self.allFactorSigmas = [self.factorSigma.copy()]
        self.phiSquareWindow = zeros((self.batchSize, self.numDistrParams))
        if self.storeAllDistributions:
            self._allDistributions = [(self.x.copy(), self.sigma.copy())]

    def _produceNewSample(self, z=None):
        if z is None:
            p = randn(self.numParameters)
            z = dot(self.factorSigma.T, p) + self.x
        self.allSamples.append(z)
        fit = self._oneEvaluation(z)
        self.allFitnesses.append(fit)
        return (z, fit)

    def _produceSamples(self):
        if self.numLearningSteps == 0 or not self.importanceMixing:
            for _ in range(self.batchSize):
                self._produceNewSample()
            self.allGenerated.append(self.batchSize + self.allGenerated[-1])
        else:
            oldpoints = self.allSamples[-self.batchSize:]
            oldDetFactorSigma = det(self.allFactorSigmas[-2])
            newDetFactorSigma = det(self.factorSigma)
            invA = inv(self.factorSigma)
            offset = len(self.allSamples) - self.batchSize
            oldInvA = inv(self.allFactorSigmas[-2])
            oldX = self.allCenters[-2]
    
            def oldpdf(s):
                p = dot(oldInvA.T, s - oldX)
                return exp(-0.5 * dot(p, p)) / oldDetFactorSigma
    
            def newpdf(s):
                p = dot(invA.T, s - self.x)
                return exp(-0.5 * dot(p, p)) / newDetFactorSigma
    
            def newSample():
                p = randn(self.numParameters)
                return dot(self.factorSigma.T, p) + self.x
            reused, newpoints = importanceMixing(oldpoints, oldpdf, newpdf, newSample, self.forcedRefresh)
            self.allGenerated.append(self.allGenerated[-1] + len(newpoints))
            for i in reused:
                self.allSamples.append(self.allSamples[offset + i])
                self.allFitnesses.append(self.allFitnesses[offset + i])
            for s in newpoints:
                self._produceNewSample(s)

    def _batchLearn(self):
        xdim = self.numParameters
        try:
            self._produceSamples()
            shapedFits = self.shapingFunction(self.allFitnesses[-self.batchSize:])
            update = self._calcBatchUpdate(shapedFits)
            if self.elitism:
                self.x = self.bestEvaluable
            else:
                self.x += self.learningRate * update[:xdim]
            self.factorSigma += self.learningRateSigma * flat2triu(update[xdim:], xdim)
            self.sigma = dot(self.factorSigma.T, self.factorSigma)
        except ValueError:
            print('Numerical Instability. Stopping.')
            self.maxLearningSteps = self.numLearningSteps
        if self._hasConverged():
            print('Premature convergence. Stopping.')
            self.maxLearningSteps = self.numLearningSteps
        if self.verbose:
            print(('Evals:', self.numEvaluations))
        self.allCenters.append(self.x.copy())
        self.allFactorSigmas.append(self.factorSigma.copy())
        if self.storeAllDistributions:
            self._allDistributions.append((self.x.copy(), self.sigma.copy()))

    def _onlineLearn(self):
        xdim = self.numParameters
        self._produceNewSample()
        if len(self.allSamples) <= self.batchSize:
            return
        shapedFits = self.shapingFunction(self.allFitnesses[-self.batchSize:])
        update = self._calcOnlineUpdate(shapedFits)
        self.x += self.learningRate * update[:xdim]
        self.factorSigma += self.learningRateSigma * flat2triu(update[xdim:], xdim)
        self.sigma = dot(self.factorSigma.T, self.factorSigma)
        if self.storeAllDistributions:
            self._allDistributions.append(self.x.copy(), self.sigma.copy())

    def _calcBatchUpdate(self, fitnesses):
        gradient = self._calcVanillaBatchGradient(self.allSamples[-self.batchSize:], fitnesses)
        if self.momentum != None:
            self.momentumVector *= self.momentum
            self.momentumVector += gradient
            return self.momentumVector
        else:
            return gradient

    def _calcOnlineUpdate(self, fitnesses):
        gradient = self._calcVanillaOnlineGradient(self.allSamples[-1], fitnesses[-self.batchSize:])
        if self.momentum != None:
            self.momentumVector *= self.momentum
            self.momentumVector += gradient
            return self.momentumVector
        else:
            return gradient

    def _logDerivX(self, sample, x, invSigma):
        return dot(invSigma, sample - x)

    def _logDerivsX(self, samples, x, invSigma):
        samplesArray = array(samples)
        tmpX = multiply(x, ones((len(samplesArray), self.numParameters)))
        return dot(invSigma, (samplesArray - tmpX).T).T

    def _logDerivFactorSigma(self, sample, x, invSigma, factorSigma):
        logDerivSigma = 0.5 * dot(dot(invSigma, outer(sample - x, sample - x)), invSigma) - 0.5 * invSigma
        if self.vanillaScale:
            logDerivSigma = multiply(outer(diag(abs(self.factorSigma)), diag(abs(self.factorSigma))), logDerivSigma)
        return triu2flat(dot(factorSigma, logDerivSigma + logDerivSigma.T))

    def _logDerivsFactorSigma(self, samples, x, invSigma, factorSigma):
        return [self._logDerivFactorSigma(sample, x, invSigma, factorSigma) for sample in samples]

    def _calcVanillaBatchGradient(self, samples, shapedfitnesses):
        invSigma = inv(self.sigma)
        phi = zeros((len(samples), self.numDistrParams))
        phi[:, :self.numParameters] = self._logDerivsX(samples, self.x, invSigma)
        logDerivFactorSigma = self._logDerivsFactorSigma(samples, self.x, invSigma, self.factorSigma)
        phi[:, self.numParameters:] = array(logDerivFactorSigma)
        Rmat = outer(shapedfitnesses, ones(self.numDistrParams))
        self.phiSquareWindow = multiply(phi, phi)
        baselineMatrix = self._calcBaseline(shapedfitnesses)
        gradient = sum(multiply(phi, Rmat - baselineMatrix), 0)
        return gradient

    def _calcVanillaOnlineGradient(self, sample, shapedfitnesses):
        invSigma = inv(self.sigma)
        phi = zeros(self.numDistrParams)
        phi[:self.numParameters] = self._logDerivX(sample, self.x, invSigma)
        logDerivSigma = self._logDerivFactorSigma(sample, self.x, invSigma, self.factorSigma)
        phi[self.numParameters:] = logDerivSigma.flatten()
        index = len(self.allSamples) % self.batchSize
        self.phiSquareWindow[index] = multiply(phi, phi)
        baseline = self._calcBaseline(shapedfitnesses)
        gradient = multiply(ones(self.numDistrParams) * shapedfitnesses[-1] - baseline, phi)
        return gradient

    def _calcBaseline(self, shapedfitnesses):
        paramWeightings = dot(ones(self.batchSize), self.phiSquareWindow)
        baseline = dot(shapedfitnesses, self.phiSquareWindow) / paramWeightings
        return baseline

    def _revertToSafety(self):
        self.factorSigma = eye(self.numParameters)
        self.x = self.bestEvaluable
        self.allFactorSigmas[-1][:] = self.factorSigma
        self.sigma = dot(self.factorSigma.T, self.factorSigma)


@target('pybrain.optimization.distributionbased.nes.ExactNES')
class ExactNES:
    def _calcBatchUpdate(self, fitnesses):
        samples = self.allSamples[-self.batchSize:]
        d = self.numParameters
        invA = inv(self.factorSigma)
        invSigma = inv(self.sigma)
        diagInvA = diag(diag(invA))
        V = zeros((self.numDistrParams, self.batchSize))
        u = zeros(self.numDistrParams)
        for i in range(self.batchSize):
            s = dot(invA.T, samples[i] - self.x)
            R = outer(s, dot(invA, s)) - diagInvA
            flatR = triu2flat(R)
            u[:d] += fitnesses[i] * (samples[i] - self.x)
            u[d:] += fitnesses[i] * flatR
            V[:d, i] += samples[i] - self.x
            V[d:, i] += flatR
        j = self.numDistrParams - 1
        D = 1 / invSigma[-1, -1]
        G = 1 / (invSigma[-1, -1] + invA[-1, -1] ** 2)
        u[j] = dot(G, u[j])
        V[j, :] = dot(G, V[j, :])
        j -= 1
        for k in reversed(list(range(d - 1))):
            p = invSigma[k + 1:, k]
            w = invSigma[k, k]
            wg = w + invA[k, k] ** 2
            q = dot(D, p)
            c = dot(p, q)
            r = 1 / (w - c)
            rg = 1 / (wg - c)
            t = -(1 + r * c) / w
            tg = -(1 + rg * c) / wg
            G = blockCombine([[rg, tg * q], [mat(tg * q).T, D + rg * outer(q, q)]])
            D = blockCombine([[r, t * q], [mat(t * q).T, D + r * outer(q, q)]])
            u[j - (d - k - 1):j + 1] = dot(G, u[j - (d - k - 1):j + 1])
            V[j - (d - k - 1):j + 1, :] = dot(G, V[j - (d - k - 1):j + 1, :])
            j -= d - k
        if self.baselineType == self.BLOCKBASELINE:
            update = zeros(self.numDistrParams)
            vsquare = multiply(V, V)
            j = self.numDistrParams - 1
            for k in reversed(list(range(self.numParameters))):
                b0 = sum(vsquare[j - (d - k - 1):j + 1, :], 0)
                b = dot(b0, fitnesses) / sum(b0)
                update[j - (d - k - 1):j + 1] = dot(V[j - (d - k - 1):j + 1, :], fitnesses - b)
                j -= d - k
            b0 = sum(vsquare[:j + 1, :], 0)
            b = dot(b0, fitnesses) / sum(b0)
            update[:j + 1] = dot(V[:j + 1, :], fitnesses - b)
        elif self.baselineType == self.SPECIFICBASELINE:
            update = zeros(self.numDistrParams)
            vsquare = multiply(V, V)
            for j in range(self.numDistrParams):
                b = dot(vsquare[j, :], fitnesses) / sum(vsquare[j, :])
                update[j] = dot(V[j, :], fitnesses - b)
        elif self.baselineType == self.UNIFORMBASELINE:
            v = sum(V, 1)
            update = u - dot(v, u) / dot(v, v) * v
        elif self.baselineType == self.NOBASELINE:
            update = dot(V, fitnesses)
        else:
            raise NotImplementedError('No such baseline implemented')
        return update / self.batchSize


@target('pybrain.optimization.distributionbased.nes.OriginalNES')
class OriginalNES:
    def _calcBatchUpdate(self, fitnesses):
        xdim = self.numParameters
        invSigma = inv(self.sigma)
        samples = self.allSamples[-self.batchSize:]
        phi = zeros((self.batchSize, self.numDistrParams + 1))
        phi[:, :xdim] = self._logDerivsX(samples, self.x, invSigma)
        phi[:, xdim:-1] = self._logDerivsFactorSigma(samples, self.x, invSigma, self.factorSigma)
        phi[:, -1] = 1
        update = dot(pinv2(phi), fitnesses)[:-1]
        return update

    def _logDerivsFactorSigma(self, samples, mu, invSigma, factorSigma):
        res = zeros((len(samples), self.numDistrParams - self.numParameters))
        invA = inv(factorSigma)
        diagInvA = diag(diag(invA))
        for i, sample in enumerate(samples):
            s = dot(invA.T, sample - mu)
            R = outer(s, dot(invA, s)) - diagInvA
            res[i] = triu2flat(R)
        return res


@target('pybrain.optimization.distributionbased.fem.FEM')
@events('_oneEvaluation')
class FEM:
    def _additionalInit(self):
        assert self.numberOfCenters == 1, 'Mixtures of Gaussians not supported yet.'
        xdim = self.numParameters
        self.alphas = ones(self.numberOfCenters) / float(self.numberOfCenters)
        self.mus = []
        self.sigmas = []
        if self.rangemins is None:
            self.rangemins = -ones(xdim)
        if self.rangemaxs is None:
            self.rangemaxs = ones(xdim)
        if self.initCovariances is None:
            if self.diagonalOnly:
                self.initCovariances = ones(xdim)
            else:
                self.initCovariances = eye(xdim)
        for _ in range(self.numberOfCenters):
            self.mus.append(rand(xdim) * (self.rangemaxs - self.rangemins) + self.rangemins)
            self.sigmas.append(dot(eye(xdim), self.initCovariances))
        self.samples = list(range(self.windowSize))
        self.fitnesses = zeros(self.windowSize)
        self.generation = 0
        self.allsamples = []
        self.muevals = []
        self.allmus = []
        self.allsigmas = []
        self.allalphas = []
        self.allUpdateSizes = []
        self.allfitnesses = []
        self.meanShifts = [zeros(self.numParameters) for _ in range(self.numberOfCenters)]
        self._oneEvaluation(self._initEvaluable)

    def _computeDensities(self, sample):
        densities = zeros(self.numberOfCenters)
        for c in range(self.numberOfCenters):
            if self.diagonalOnly:
                pdf = product([norm.pdf(x, self.mus[c][i], self.sigmas[c][i]) for i, x in enumerate(sample)])
            else:
                pdf = multivariateNormalPdf(sample, self.mus[c], self.sigmas[c])
            if pdf > 1e+40:
                pdf = 1e+40
            elif pdf < 1e-40:
                pdf = 1e-40
            if isnan(pdf):
                print('NaN!')
                pdf = 0.0
            densities[c] = self.alphas[c] * pdf
        densities /= sum(densities)
        return densities

    def _computeUpdateSize(self, densities, sampleIndex):
        transformedfitnesses = self.shapingFunction(self.fitnesses)
        transformedfitnesses /= max(transformedfitnesses)
        updateSize = transformedfitnesses[sampleIndex] * densities
        return updateSize * self.forgetFactor

    def _updateMus(self, updateSize, lastSample):
        for c in range(self.numberOfCenters):
            oldmu = self.mus[c].copy()
            self.mus[c] *= 1.0 - self.muMultiplier * updateSize[c]
            self.mus[c] += self.muMultiplier * updateSize[c] * lastSample
            if self.useAnticipatedMeanShift and len(self.allsamples) % self.windowSize == 1 or (not self.useAnticipatedMeanShift and self.numberOfCenters > 1):
                self.meanShifts[c] *= 1.0 - self.forgetFactor
                self.meanShifts[c] += self.mus[c] - oldmu
            if self.doMadnessUpdate and len(self.allsamples) > 2 * self.windowSize:
                self.mus[c] = zeros(self.numParameters)
                updateSum = 0.0
                for i in range(self.windowSize):
                    self.mus[c] += self.allsamples[-i - 1] * self.allUpdateSizes[-i - 1][c]
                    updateSum += self.allUpdateSizes[-i - 1][c]
                self.mus[c] /= updateSum
        if self.elitism:
            self.mus[0] = self.bestEvaluable.copy()

    def _updateSigmas(self, updateSize, lastSample):
        for c in range(self.numberOfCenters):
            self.sigmas[c] *= 1.0 - updateSize[c]
            dif = self.mus[c] - lastSample
            if self.diagonalOnly:
                self.sigmas[c] += updateSize[c] * multiply(dif, dif)
            else:
                self.sigmas[c] += updateSize[c] * 1.2 * outer(dif, dif)

    def _updateAlphas(self, updateSize):
        for c in range(self.numberOfCenters):
            x = updateSize[c]
            x /= sum(updateSize)
            self.alphas[c] = (1.0 - self.forgetFactor) * self.alphas[c] + self.forgetFactor * x
        self.alphas /= sum(self.alphas)
        for c in range(self.numberOfCenters):
            if self.alphas[c] < self.minimumCenterWeight:
                if self.verbose:
                    print('Split!')
                bestCenter = argmax(self.alphas)
                totalWeight = self.alphas[c] + self.alphas[bestCenter]
                self.alphas[c] = totalWeight / 2
                self.alphas[bestCenter] = totalWeight / 2
                self.mus[c] = self.mus[bestCenter].copy()
                self.sigmas[c] = 4.0 * self.sigmas[bestCenter].copy()
                self.sigmas[bestCenter] *= 0.25
                break

    def _learnStep(self):
        k = len(self.allsamples) % self.windowSize
        sample, fit = self._produceNewSample()
        self.samples[k], self.fitnesses[k] = (sample, fit)
        self.generation += 1
        if len(self.allsamples) < self.windowSize:
            return
        if self.verbose and len(self.allsamples) % 100 == 0:
            print((len(self.allsamples), min(self.fitnesses), max(self.fitnesses)))
        updateSize = self._computeUpdateSize(self._computeDensities(sample), k)
        self.allUpdateSizes.append(deepcopy(updateSize))
        if sum(updateSize) > 0:
            if self.numberOfCenters > 1:
                self._updateAlphas(updateSize)
            if not self.mutative:
                self._updateMus(updateSize, sample)
                self._updateSigmas(updateSize, sample)
            else:
                self._updateSigmas(updateSize, sample)
                self._updateMus(updateSize, sample)
        if self.adaptiveShaping:
            self._updateShaping()
        self.allalphas.append(deepcopy(self.alphas))
        self.allsigmas.append(deepcopy(self.sigmas))
        self.allmus.append(deepcopy(self.mus))
        if self.oneFifthRule and len(self.allsamples) % 10 == 0 and (len(self.allsamples) > 2 * self.windowSize):
            lastBatch = self.allfitnesses[-self.windowSize:]
            secondLast = self.allfitnesses[-2 * self.windowSize:-self.windowSize]
            sortedLast = sort(lastBatch)
            sortedSecond = sort(secondLast)
            index = int(self.windowSize * 0.8)
            if sortedLast[index] >= sortedSecond[index]:
                self.sigmas = [1.2 * sigma for sigma in self.sigmas]
            else:
                self.sigmas = [0.5 * sigma for sigma in self.sigmas]


@target('pybrain.auxiliary.importancemixing.importanceMixing')
def importanceMixing(oldpoints, oldpdf, newpdf, newdistr, forcedRefresh=0.01):
    reuseindices = []
    batch = len(oldpoints)
    for i, sample in enumerate(oldpoints):
        r = uniform(0, 1)
        if r < (1 - forcedRefresh) * newpdf(sample) / oldpdf(sample):
            reuseindices.append(i)
        if batch - len(reuseindices) <= max(1, batch * forcedRefresh):
            break
    newpoints = []
    while len(reuseindices) + len(newpoints) < batch:
        r = uniform(0, 1)
        sample = newdistr()
        if r < forcedRefresh:
            newpoints.append(sample)
        elif r < 1 - oldpdf(sample) / newpdf(sample):
            newpoints.append(sample)
    return (reuseindices, newpoints)

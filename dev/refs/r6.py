D = 'optimization/distributionbased/'
edit(D + 'xnes.py', [('''        dim = self.numParameters
        if self.covLearningRate is None:
            self.covLearningRate = 0.6*(3+log(dim))/dim/sqrt(dim)
        if self.scaleLearningRate is None:
            self.scaleLearningRate = self.covLearningRate
        if self.batchSize is None:
            if self.importanceMixing:
                self.batchSize = 10*dim
            else:
                self.batchSize = 4+int(floor(3*log(dim)))
''', '''        self._setDefaults(self.numParameters)
'''), ('''    def _learnStep(self):
        """ Main part of the algorithm. """
''', '''    def _setDefaults(self, n):
        if self.covLearningRate is None:
            self.covLearningRate = 0.6 * (log(n) + 3) / (n * sqrt(n))
        if self.scaleLearningRate is None:
            self.scaleLearningRate = self.covLearningRate
        if self.batchSize is None:
            self.batchSize = 10 * n if self.importanceMixing else int(floor(3 * log(n))) + 4

    def _learnStep(self):
        """ Main part of the algorithm. """
'''), ('''        if self._wasUnwrapped:
            return [self._allEvaluated[i].params for i in self._pointers]
        else:
            return [self._allEvaluated[i] for i in self._pointers]
''', '''        points = [self._allEvaluated[i] for i in self._pointers]
        if self._wasUnwrapped:
            points = [p.params for p in points]
        return points
'''), ('''        fits = [self._allEvaluations[i] for i in self._pointers]
        if self._wasOpposed:
            fits = [-x for x in fits]
        return fits
''', '''        sign = -1 if self._wasOpposed else 1
        return [sign * self._allEvaluations[i] for i in self._pointers]
'''), ('''            [self._oneEvaluation(self._sample2base(self._produceSample())) for _ in range(self.batchSize)]
            self._pointers = list(range(len(self._allEvaluated)-self.batchSize, len(self._allEvaluated)))
''', '''            for _ in range(self.batchSize):
                self._oneEvaluation(self._sample2base(self._produceSample()))
            total = len(self._allEvaluated)
            self._pointers = list(range(total - self.batchSize, total))
'''), ('''        covTrace = trace(covGradient)
        covGradient -= covTrace/self.numParameters * I
        dA = 0.5 * (self.scaleLearningRate * covTrace/self.numParameters * I
                    +self.covLearningRate * covGradient)
''', '''        covTrace = trace(covGradient)
        isotropic = covTrace / self.numParameters * I
        dA = 0.5 * (self.covLearningRate * (covGradient - isotropic)
                    + self.scaleLearningRate * isotropic)
'''), ('''        self._A = dot(self._A, expm(dA))
        self._invA = dot(expm(-dA), self._invA)
        self._logDetA += 0.5 * self.scaleLearningRate * covTrace
''', '''        self._logDetA = self._logDetA + self.scaleLearningRate * covTrace / 2.
        self._invA = dot(expm(-dA), self._invA)
        self._A = dot(self._A, expm(dA))
''')])
edit(D + 'ves.py', [('''        if z is None:
            p = randn(self.numParameters)
            z = dot(self.factorSigma.T, p) + self.x
        self.allSamples.append(z)
        fit = self._oneEvaluation(z)
        self.allFitnesses.append(fit)
        return z, fit
''', '''        if z is None:
            z = self._drawSample()
        self.allSamples.append(z)
        self.allFitnesses.append(self._oneEvaluation(z))
        return z, self.allFitnesses[-1]

    def _drawSample(self):
        return self.x + dot(self.factorSigma.T, randn(self.numParameters))
'''), ('''        gradient = self._calcVanillaBatchGradient(self.allSamples[-self.batchSize:], fitnesses)
        if self.momentum != None:
            self.momentumVector *= self.momentum
            self.momentumVector += gradient
            return self.momentumVector
        else:
            return gradient
''', '''        return self._applyMomentum(self._calcVanillaBatchGradient(self.allSamples[-self.batchSize:], fitnesses))

    def _applyMomentum(self, gradient):
        if self.momentum is None:
            return gradient
        self.momentumVector *= self.momentum
        self.momentumVector += gradient
        return self.momentumVector
'''), ('''        gradient = self._calcVanillaOnlineGradient(self.allSamples[-1], fitnesses[-self.batchSize:])
        if self.momentum != None:
            self.momentumVector *= self.momentum
            self.momentumVector += gradient
            return self.momentumVector
        else:
            return gradient
''', '''        return self._applyMomentum(self._calcVanillaOnlineGradient(self.allSamples[-1],
                                                                   fitnesses[-self.batchSize:]))
'''), ('''        return [self._logDerivFactorSigma(sample, x, invSigma, factorSigma) for sample in samples]
''', '''        res = []
        for s in samples:
            res.append(self._logDerivFactorSigma(s, x, invSigma, factorSigma))
        return res
'''), ('''        logDerivSigma = 0.5 * dot(dot(invSigma, outer(sample - x, sample - x)), invSigma) - 0.5 * invSigma
        if self.vanillaScale:
            logDerivSigma = multiply(outer(diag(abs(self.factorSigma)), diag(abs(self.factorSigma))), logDerivSigma)
''', '''        dif = sample - x
        logDerivSigma = (dot(dot(invSigma, outer(dif, dif)), invSigma) - invSigma) * 0.5
        if self.vanillaScale:
            scales = diag(abs(self.factorSigma))
            logDerivSigma = multiply(outer(scales, scales), logDerivSigma)
'''), ('''        eigs = abs(diag(self.factorSigma))
        return min(eigs) < 1e-10
''', '''        return min(abs(diag(self.factorSigma))) < 1e-10
'''), ('''        if self.online:
            self._onlineLearn()
        else:
            self._batchLearn()
''', '''        learn = self._onlineLearn if self.online else self._batchLearn
        learn()
'''), ('''        Rmat = outer(shapedfitnesses, ones(self.numDistrParams))

        # optimal baseline
        self.phiSquareWindow = multiply(phi, phi)
        baselineMatrix = self._calcBaseline(shapedfitnesses)

        gradient = sum(multiply(phi, (Rmat - baselineMatrix)), 0)
        return gradient
''', '''        # optimal baseline
        self.phiSquareWindow = phi * phi
        baseline = self._calcBaseline(shapedfitnesses)
        Rmat = outer(shapedfitnesses, ones(self.numDistrParams))
        return sum(multiply(phi, Rmat - baseline), 0)
'''), ('''        if self.rangemins is None:
            self.rangemins = -ones(xdim)
        if self.rangemaxs is None:
            self.rangemaxs = ones(xdim)
        if self.initCovariances is None:
            if self.diagonalOnly:
                self.initCovariances = ones(xdim)
            else:
                self.initCovariances = eye(xdim)
''', '''        self._initRanges(xdim)
'''), ('''    def _produceSamples(self):
        """ Append batchsize''', '''    def _initRanges(self, n):
        if self.initCovariances is None:
            self.initCovariances = ones(n) if self.diagonalOnly else eye(n)
        if self.rangemaxs is None:
            self.rangemaxs = ones(n)
        if self.rangemins is None:
            self.rangemins = -ones(n)

    def _produceSamples(self):
        """ Append batchsize''')])
edit(D + 'fem.py', [('''            if pdf > 1e40:
                pdf = 1e40
            elif pdf < 1e-40:
                pdf = 1e-40
            if isnan(pdf):
                print('NaN!')
                pdf = 0.
            densities[c] = self.alphas[c] * pdf
        densities /= sum(densities)
        return densities
''', '''            densities[c] = self.alphas[c] * self._clipDensity(pdf)
        return densities / sum(densities)

    def _clipDensity(self, pdf):
        if isnan(pdf):
            print('NaN!')
            return 0.
        if pdf > 1e40:
            return 1e40
        if pdf < 1e-40:
            return 1e-40
        return pdf
'''), ('''            self.sigmas[c] *= (1. - updateSize[c])
            dif = self.mus[c] - lastSample
            if self.diagonalOnly:
                self.sigmas[c] += updateSize[c] * multiply(dif, dif)
            else:
                self.sigmas[c] += updateSize[c] * 1.2 * outer(dif, dif)
''', '''            step = updateSize[c]
            dif = self.mus[c] - lastSample
            self.sigmas[c] *= 1. - step
            if not self.diagonalOnly:
                self.sigmas[c] += 1.2 * step * outer(dif, dif)
            else:
                self.sigmas[c] += step * dif * dif
'''), ('''            oldmu = self.mus[c].copy()
            self.mus[c] *= 1. - self.muMultiplier * updateSize[c]
            self.mus[c] += self.muMultiplier * updateSize[c] * lastSample
''', '''            oldmu = self.mus[c].copy()
            rate = self.muMultiplier * updateSize[c]
            self.mus[c] *= 1. - rate
            self.mus[c] += rate * lastSample
'''), ('''        if self.minimize:
            fit = -fit
        self.allfitnesses.append(fit)
        self.allsamples.append(sample)
        return sample, fit
''', '''        fit = -fit if self.minimize else fit
        self.allsamples.append(sample)
        self.allfitnesses.append(fit)
        return sample, fit
'''), ('''            if not self.mutative:
                self._updateMus(updateSize, sample)
                self._updateSigmas(updateSize, sample)
            else:
                self._updateSigmas(updateSize, sample)
                self._updateMus(updateSize, sample)
''', '''            if self.mutative:
                updates = [self._updateSigmas, self._updateMus]
            else:
                updates = [self._updateMus, self._updateSigmas]
            for update in updates:
                update(updateSize, sample)
'''), ('''            if sortedLast[index] >= sortedSecond[index]:
                self.sigmas = [1.2 * sigma for sigma in self.sigmas]
                #print("+")
            else:
                self.sigmas = [0.5 * sigma for sigma in self.sigmas]
                #print("-")
''', '''            factor = 1.2 if sortedLast[index] >= sortedSecond[index] else 0.5
            self.sigmas = [factor * sigma for sigma in self.sigmas]
'''), ('''                totalWeight = self.alphas[c] + self.alphas[bestCenter]
                self.alphas[c] = totalWeight / 2
                self.alphas[bestCenter] = totalWeight / 2
''', '''                half = (self.alphas[c] + self.alphas[bestCenter]) / 2
                self.alphas[bestCenter] = half
                self.alphas[c] = half
''')])
edit(D + 'nes.py', [('''        update = dot(pinv2(phi), fitnesses)[:-1]
        return update
''', '''        return dot(pinv2(phi), fitnesses)[:-1]
'''), ('''        res = zeros((len(samples), self.numDistrParams - self.numParameters))
        invA = inv(factorSigma)
        diagInvA = diag(diag(invA))

        for i, sample in enumerate(samples):
            s = dot(invA.T, (sample - mu))
            R = outer(s, dot(invA, s)) - diagInvA
            res[i] = triu2flat(R)
        return res
''', '''        invA = inv(factorSigma)
        diagInvA = diag(diag(invA))
        res = zeros((len(samples), self.numDistrParams - self.numParameters))
        for i in range(len(samples)):
            s = dot(invA.T, samples[i] - mu)
            res[i] = triu2flat(outer(s, dot(invA, s)) - diagInvA)
        return res
'''), ('''            s = dot(invA.T, (samples[i] - self.x))
            R = outer(s, dot(invA, s)) - diagInvA
            flatR = triu2flat(R)
            u[:d] += fitnesses[i] * (samples[i] - self.x)
            u[d:] += fitnesses[i] * flatR
            V[:d, i] += samples[i] - self.x
            V[d:, i] += flatR
''', '''            dif = samples[i] - self.x
            s = dot(invA.T, dif)
            flatR = triu2flat(outer(s, dot(invA, s)) - diagInvA)
            V[:d, i] += dif
            V[d:, i] += flatR
            u[:d] += fitnesses[i] * dif
            u[d:] += fitnesses[i] * flatR
'''), ('''            u[j - (d - k - 1):j + 1] = dot(G, u[j - (d - k - 1):j + 1])
            V[j - (d - k - 1):j + 1, :] = dot(G, V[j - (d - k - 1):j + 1, :])
            j -= d - k
''', '''            start = j - (d - k - 1)
            V[start:j + 1, :] = dot(G, V[start:j + 1, :])
            u[start:j + 1] = dot(G, u[start:j + 1])
            j = start - 1
'''), ('''            for j in range(self.numDistrParams):
                b = dot(vsquare[j, :], fitnesses) / sum(vsquare[j, :])
                update[j] = dot(V[j, :], (fitnesses - b))
''', '''            for j in range(self.numDistrParams):
                row = vsquare[j]
                update[j] = dot(V[j], fitnesses - dot(row, fitnesses) / sum(row))
''')])
edit(D + 'rank1.py', [('''        if DistributionBasedOptimizer._stoppingCriterion(self):
            return True
        elif self._getMaxVariance < self.varianceCutoff:   
            return True
        else:
            return False
''', '''        return bool(DistributionBasedOptimizer._stoppingCriterion(self)
                    or self._getMaxVariance < self.varianceCutoff)
'''), ('''        W = [w for i,w in enumerate(W) if utilities[i] != 0]
        utilities = [uw for uw in utilities if uw != 0]
''', '''        W = [w for w, uw in zip(W, utilities) if uw != 0]
        utilities = [uw for uw in utilities if uw != 0]
'''), ('''        wv2s = array([wv ** 2 for wv in wvs])
''', '''        wv2s = wvs ** 2
'''), ('''        tmp = [self._sample2base(self._produceSample()) for _ in range(self.batchSize)]
        list(map(self._oneEvaluation, tmp))            
''', '''        tmp = [self._sample2base(self._produceSample()) for _ in range(self.batchSize)]
        for point in tmp:
            self._oneEvaluation(point)
'''), ('''        if dc > 0: 
            # additive update
            self._principalVector += epsilon * du
        else: 
            # multiplicative update
            # prevents instability            
            c += epsilon * dc
            v += epsilon * dv
            v /= sqrt(dot(v, v))
            r = exp(c)
            self._principalVector = r * v        
''', '''        if dc <= 0:
            # multiplicative update
            # prevents instability
            direction = v + epsilon * dv
            direction = direction / sqrt(dot(direction, direction))
            self._principalVector = exp(c + epsilon * dc) * direction
        else:
            # additive update
            self._principalVector += epsilon * du
''')])
L = 'rl/learners/directsearch/'
edit(L + 'policygradient.py', [('''        gradient = self.calculateGradient()

        # scale gradient if it has too large values
        if max(gradient) > 1000:
            gradient = gradient / max(gradient) * 1000

        # update the parameters of the module
        p = self.gd(gradient.flatten())
        self.network._setParameters(p)
''', '''        gradient = self._limit(self.calculateGradient())

        # update the parameters of the module
        self.network._setParameters(self.gd(gradient.flatten()))
'''), ('''    def explore(self, state, action):
''', '''    def _limit(self, gradient, bound=1000):
        largest = max(gradient)
        if largest > bound:
            return bound * gradient / largest
        return gradient

    def explore(self, state, action):
''')])
edit(L + 'enac.py', [('''        R = ones((self.dataset.getNumSequences(), 1), float)
        X = ones((self.dataset.getNumSequences(), self.loglh.getDimension('loglh') + 1), float)
''', '''        numseqs = self.dataset.getNumSequences()
        R = ones((numseqs, 1), float)
        X = ones((numseqs, self.loglh.getDimension('loglh') + 1), float)
'''), ('''        print((self.dataset.getNumSequences()))
        for n in range(self.dataset.getNumSequences()):
            _state, _action, reward = self.dataset.getSequence(n)
            seqidx = ravel(self.dataset['sequence_index'])
            if n == self.dataset.getNumSequences() - 1:
                # last sequence until end of dataset
                loglh = self.loglh['loglh'][seqidx[n]:, :]
            else:
                loglh = self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]

            X[n, :-1] = sum(loglh, 0)
            R[n, 0] = sum(reward, 0)
''', '''        print(numseqs)
        seqidx = ravel(self.dataset['sequence_index'])
        for n in range(numseqs):
            _, _, reward = self.dataset.getSequence(n)
            # last sequence until end of dataset
            end = seqidx[n + 1] if n < numseqs - 1 else None
            X[n, :-1] = sum(self.loglh['loglh'][seqidx[n]:end], 0)
            R[n, 0] = sum(reward, 0)
''')])
edit(L + 'reinforce.py', [('''        loglhs = [sum(self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]) for n in range(self.dataset.getNumSequences() - 1)]
        # append sum of last sequence as well
        loglhs.append(sum(self.loglh['loglh'][seqidx[-1]:, :]))
        loglhs = array(loglhs)

        baselines = mean(loglhs ** 2 * returns, 0) / mean(loglhs ** 2, 0)
        # TODO: why gradient negative?
        gradient = -mean(loglhs * (returns - baselines), 0)

        return gradient
''', '''        allLoglhs = self.loglh['loglh']
        loglhs = []
        for n in range(self.dataset.getNumSequences() - 1):
            loglhs.append(sum(allLoglhs[seqidx[n]:seqidx[n + 1]]))
        # append sum of last sequence as well
        loglhs.append(sum(allLoglhs[seqidx[-1]:]))
        loglhs = array(loglhs)
        squares = loglhs * loglhs
        baselines = mean(squares * returns, 0) / mean(squares, 0)
        return -mean((returns - baselines) * loglhs, 0)
''')])
M = 'optimization/memetic/'
edit(M + 'innermemetic.py', [('''        if self.evaluatorIsNoisy:
            return (self.mu + self.lambada)*self.localSteps
        else:
            return self.lambada*self.localSteps
''', '''        evaluated = self.mu + self.lambada if self.evaluatorIsNoisy else self.lambada
        return evaluated * self.localSteps
''')])
edit(M + 'memetic.py', [('''        tm = self._initEvaluable.__class__.topologyMutate
        m = self._initEvaluable.__class__.mutate
        self._initEvaluable.__class__.topologyMutate = m
        self._initEvaluable.__class__.mutate = tm
''', '''        cls = self._initEvaluable.__class__
        cls.topologyMutate, cls.mutate = cls.mutate, cls.topologyMutate
'''), ('''        if self.numEvaluations == 0:
            return BlackBoxOptimizer._oneEvaluation(self, evaluable)
        else:
            self.switchMutations()
            if isinstance(evaluable, MaskedParameters):
                evaluable.returnZeros = False
                x0 = evaluable.params
                evaluable.returnZeros = True
                def f(x):
                    evaluable.returnZeros = False
                    evaluable._setParameters(x)
                    evaluable.returnZeros = True
                    return BlackBoxOptimizer._oneEvaluation(self, evaluable)
            else:
                f = lambda x: BlackBoxOptimizer._oneEvaluation(self, x)
                x0 = evaluable
            outsourced = self.localSearch(f, x0,
                                          maxEvaluations = self.localSteps,
                                          desiredEvaluation = self.desiredEvaluation,
                                          minimize = self.minimize,
                                          **self.localSearchArgs)
            assert self.localSteps > outsourced.batchSize, 'localSteps too small ('+str(self.localSteps)+\\
                                                '), because local search has a batch size of '+str(outsourced.batchSize)
            _, fitness = outsourced.learn()
            self.switchMutations()
            return fitness
''', '''        if self.numEvaluations == 0:
            return BlackBoxOptimizer._oneEvaluation(self, evaluable)
        self.switchMutations()
        if isinstance(evaluable, MaskedParameters):
            evaluable.returnZeros = False
            x0 = evaluable.params
            evaluable.returnZeros = True
            def f(x):
                evaluable.returnZeros = False
                evaluable._setParameters(x)
                evaluable.returnZeros = True
                return BlackBoxOptimizer._oneEvaluation(self, evaluable)
        else:
            x0 = evaluable
            def f(x):
                return BlackBoxOptimizer._oneEvaluation(self, x)
        local = self.localSearch(f, x0, minimize=self.minimize,
                                 desiredEvaluation=self.desiredEvaluation,
                                 maxEvaluations=self.localSteps,
                                 **self.localSearchArgs)
        assert self.localSteps > local.batchSize, 'localSteps too small ('+str(self.localSteps)+\\
                                            '), because local search has a batch size of '+str(local.batchSize)
        fitness = local.learn()[1]
        self.switchMutations()
        return fitness
''')])
edit('tools/shortcuts.py', [('''    for key in options:
        if key not in list(opt.keys()):
            raise NetworkError('buildNetwork unknown option: %s' % key)
        opt[key] = options[key]
''', '''    for key, value in options.items():
        if key not in opt:
            raise NetworkError('buildNetwork unknown option: %s' % key)
        opt[key] = value
'''), ('''    if opt['hiddenclass'].sequential or opt['outclass'].sequential:
        if not opt['recurrent']:
            # CHECKME: a warning here?
            opt['recurrent'] = True
''', '''    if (opt['hiddenclass'].sequential or opt['outclass'].sequential) and not opt['recurrent']:
        # CHECKME: a warning here?
        opt['recurrent'] = True
'''), ('''    for i, num in enumerate(layers[1:-1]):
        layername = 'hidden%i' % i
        if issubclass(opt['hiddenclass'], LSTMLayer):
            n.addModule(opt['hiddenclass'](num, peepholes=opt['peepholes'], name=layername))
        else:
            n.addModule(opt['hiddenclass'](num, name=layername))
        if opt['bias']:
            # also connect all the layers with the bias
            n.addConnection(FullConnection(n['bias'], n[layername]))
''', '''    isLSTM = issubclass(opt['hiddenclass'], LSTMLayer)
    for i in range(len(layers) - 2):
        layername = 'hidden%i' % i
        if isLSTM:
            layer = opt['hiddenclass'](layers[i + 1], peepholes=opt['peepholes'], name=layername)
        else:
            layer = opt['hiddenclass'](layers[i + 1], name=layername)
        n.addModule(layer)
        if opt['bias']:
            # also connect all the layers with the bias
            n.addConnection(FullConnection(n['bias'], layer))
'''), ('''    if len(layers) == 2:
        # flat network, connection from in to out
        n.addConnection(FullConnection(n['in'], n['out']))
    else:
        # network with hidden layer(s), connections from in to first hidden and last hidden to out
        n.addConnection(FullConnection(n['in'], n['hidden0']))
        n.addConnection(FullConnection(n['hidden%i' % (len(layers) - 3)], n['out']))

    # recurrent connections
    if issubclass(opt['hiddenclass'], LSTMLayer):
''', '''    if len(layers) > 2:
        # network with hidden layer(s), connections from in to first hidden and last hidden to out
        n.addConnection(FullConnection(n['in'], n['hidden0']))
        n.addConnection(FullConnection(n['hidden%i' % (len(layers) - 3)], n['out']))
    else:
        # flat network, connection from in to out
        n.addConnection(FullConnection(n['in'], n['out']))

    # recurrent connections
    if isLSTM:
''')])

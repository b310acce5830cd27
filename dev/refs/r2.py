edit('structure/connections/full.py', [('''        outbuf += dot(reshape(self.params, (self.outdim, self.indim)), inbuf)
''', '''        outbuf += dot(self._weightMatrix(), inbuf)

    def _weightMatrix(self):
        """ the parameters, one row per output """
        rows, cols = self.outdim, self.indim
        return reshape(self.params, (rows, cols))
'''), ('''        inerr += dot(reshape(self.params, (self.outdim, self.indim)).T, outerr)
        ds = self.derivs
        ds += outer(inbuf, outerr).T.flatten()
''', '''        ds = self.derivs
        ds += outer(outerr, inbuf).flatten()
        inerr += dot(self._weightMatrix().T, outerr)
''')])
edit('structure/connections/linear.py', [('''        inerr += outerr * self.params
        #CHECKME: not setting derivatives -- this means the multiplicative weight is never updated!
        ds = self.derivs
        ds += outerr * inbuf
''', '''        self._derivs += inbuf * outerr
        inerr += self.params * outerr
''')]) if '#CHECKME: not setting derivatives' in open(R + '/pybrain/structure/connections/linear.py').read() else edit('structure/connections/linear.py', [('''        inerr += outerr * self.params
        ds = self.derivs
        ds += outerr * inbuf
''', '''        weights = self.params
        inerr += weights * outerr
        grad = self.derivs
        grad += inbuf * outerr
''')])
edit('structure/connections/connection.py', [('''        if inSliceTo is not None:
            self.inSliceTo = inSliceTo
        else:
            self.inSliceTo = inmod.outdim
        if outSliceTo is not None:
            self.outSliceTo = outSliceTo
        else:
            self.outSliceTo = outmod.indim
''', '''        self.inSliceTo = inmod.outdim if inSliceTo is None else inSliceTo
        self.outSliceTo = outmod.indim if outSliceTo is None else outSliceTo
'''), ('''        self._forwardImplementation(
            self.inmod.outputbuffer[inmodOffset, self.inSliceFrom:self.inSliceTo],
            self.outmod.inputbuffer[outmodOffset, self.outSliceFrom:self.outSliceTo])
''', '''        source = self.inmod.outputbuffer[inmodOffset, self.inSliceFrom:self.inSliceTo]
        target = self.outmod.inputbuffer[outmodOffset, self.outSliceFrom:self.outSliceTo]
        self._forwardImplementation(source, target)
'''), ('''        self._backwardImplementation(
            self.outmod.inputerror[outmodOffset, self.outSliceFrom:self.outSliceTo],
            self.inmod.outputerror[inmodOffset, self.inSliceFrom:self.inSliceTo],
            self.inmod.outputbuffer[inmodOffset, self.inSliceFrom:self.inSliceTo])
''', '''        outerr = self._outSlice(self.outmod.inputerror, outmodOffset)
        inerr = self._inSlice(self.inmod.outputerror, inmodOffset)
        self._backwardImplementation(outerr, inerr, self._inSlice(self.inmod.outputbuffer, inmodOffset))

    def _inSlice(self, buf, offset):
        return buf[offset, self.inSliceFrom:self.inSliceTo]

    def _outSlice(self, buf, offset):
        return buf[offset, self.outSliceFrom:self.outSliceTo]
''')])
edit('structure/modules/lstm.py', [('''        self.maxoffset = max(self.offset + 1, self.maxoffset)

        dim = self.outdim
''', '''        if self.offset + 1 > self.maxoffset:
            self.maxoffset = self.offset + 1

        dim = self.outdim
        t = self.offset
''') , ('''        self.ingate[self.offset] = self.f(self.ingatex[self.offset])
        self.forgetgate[self.offset] = self.f(self.forgetgatex[self.offset])

        self.state[self.offset] = self.ingate[self.offset] * self.g(cellx)
''', '''        self.forgetgate[t] = self.f(self.forgetgatex[t])
        self.ingate[t] = self.f(self.ingatex[t])

        self.state[t] = self.g(cellx) * self.ingate[t]
'''), ('''        cellError = self.ingate[self.offset] * self.gprime(cellx) * self.stateError[self.offset]
        if self.offset > 0:
            self.forgetgateError[self.offset] = self.fprime(self.forgetgatex[self.offset]) * self.stateError[self.offset] * self.state[self.offset-1]

        self.ingateError[self.offset] = self.fprime(self.ingatex[self.offset]) * self.stateError[self.offset] * self.g(cellx)
''', '''        t = self.offset
        err = self.stateError[t]
        self.ingateError[t] = self.fprime(self.ingatex[t]) * err * self.g(cellx)
        cellError = self.ingate[t] * self.gprime(cellx) * err
        if t > 0:
            self.forgetgateError[t] = self.fprime(self.forgetgatex[t]) * err * self.state[t-1]
''')])
edit('structure/modules/gate.py', [('''        in0 = inbuf[:dim]
        in1 = inbuf[dim:]
        out0 = outerr[:dim]
        out1 = outerr[dim:]
        inerr[:dim] += sigmoidPrime(in0) * in1 * out0
        inerr[dim:] += sigmoid(in0) * out0
        inerr[:dim] -= sigmoidPrime(in0) * in1 * out1
        inerr[dim:] += (1 - sigmoid(in0)) * out1
''', '''        in0, in1 = inbuf[:dim], inbuf[dim:]
        out0, out1 = outerr[:dim], outerr[dim:]
        gate = sigmoid(in0)
        inerr[:dim] += sigmoidPrime(in0) * in1 * (out0 - out1)
        inerr[dim:] += gate * out0 + (1 - gate) * out1
'''), ('''        inerr += sigmoidPrime(inbuf) * outerr[:self.indim]
        inerr -= sigmoidPrime(inbuf) * outerr[self.indim:]
''', '''        slope = sigmoidPrime(inbuf)
        inerr += slope * (outerr[:self.indim] - outerr[self.indim:])
'''), ('''        outbuf[:self.indim] += sigmoid(inbuf)
        outbuf[self.indim:] += 1 - sigmoid(inbuf)
''', '''        dim, s = self.indim, sigmoid(inbuf)
        outbuf[:dim] += s
        outbuf[dim:] += 1 - s
''')])
edit('structure/modules/softmax.py', [('''        outbuf[:] = safeExp(inbuf)
        outbuf /= sum(outbuf)
''', '''        e = safeExp(inbuf)
        outbuf[:] = e / sum(e)
''')])
edit('structure/modules/gaussianlayer.py', [('''        if not self.enabled:
            outbuf[:] = inbuf
        else:
            outbuf[:] = random.normal(inbuf, expln(self.params))
''', '''        if self.enabled:
            sigma = expln(self.params)
            outbuf[:] = random.normal(inbuf, sigma)
        else:
            outbuf[:] = inbuf
'''), ('''        expln_params = expln(self.params)
''', '''        expln_params = expln(self.params)
        diff = outbuf - inbuf
'''), ('''        inerr[:] = (outbuf - inbuf)
''', '''        inerr[:] = diff
''')])
edit('structure/parametercontainer.py', [('''        if self.owner == self:
            # the object owns it parameter array, which means it cannot be set,
            # only updated with new values.
            self._params[:] = p
        elif self.owner != owner:
            raise Exception("Parameter ownership mismatch: cannot set to new array.")
        else:
            self._params = p
            self.paramdim = size(self.params)
''', '''        if self.owner == self:
            # the object owns it parameter array, which means it cannot be set,
            # only updated with new values.
            self._params[:] = p
            return
        if not (self.owner == owner):
            raise Exception("Parameter ownership mismatch: cannot set to new array.")
        self._params = p
        self.paramdim = size(p)
'''), ('''        self._params += randn(self.paramdim)*self.mutationStd''', '''        noise = randn(self.paramdim)
        self._params += self.mutationStd * noise''')])
edit('optimization/distributionbased/snes.py', [('''        if DistributionBasedOptimizer._stoppingCriterion(self):
            return True
        elif max(abs(self._sigmas)) < self.varianceCutoff:   
            return True
        else:
            return False
''', '''        return bool(DistributionBasedOptimizer._stoppingCriterion(self)
                    or max(abs(self._sigmas)) < self.varianceCutoff)
'''), ('''        fits = [self._allEvaluations[i] for i in self._pointers]
        if self._wasOpposed:
            fits = [-x for x in fits]
        return fits
''', '''        sign = -1 if self._wasOpposed else 1
        return [sign * self._allEvaluations[i] for i in self._pointers]
'''), ('''        tmp = [self._sample2base(self._produceSample()) for _ in range(self.batchSize)]
        list(map(self._oneEvaluation, tmp))            
        self._pointers = list(range(len(self._allEvaluated) - self.batchSize, len(self._allEvaluated)))                    
''', '''        tmp = []
        for _ in range(self.batchSize):
            tmp.append(self._sample2base(self._produceSample()))
        for x in tmp:
            self._oneEvaluation(x)
        n = len(self._allEvaluated)
        self._pointers = list(range(n - self.batchSize, n))
'''), ('''        # update variances
        covGradient = dot(utilities, [s ** 2 - 1 for s in samples])        
        dA = 0.5 * self.covLearningRate * covGradient                                
        self._sigmas = self._sigmas * exp(dA)            
''', '''        # update variances
        self._sigmas = self._sigmas * exp(self._logSigmaStep(utilities, samples))

    def _logSigmaStep(self, utilities, samples):
        covGradient = dot(utilities, [s ** 2 - 1 for s in samples])
        return self.covLearningRate * covGradient / 2.
''')])
edit('optimization/populationbased/pso.py', [('''        if ((self.minimize and value < self.bestFitness)
            or (not self.minimize and value > self.bestFitness)):
            self.bestFitness = value
            self.bestPosition = self.position.copy()
''', '''        improved = value < self.bestFitness if self.minimize else value > self.bestFitness
        if improved:
            self.bestPosition = self.position.copy()
            self.bestFitness = value
'''), ('''            diff_social = self.sociality \\
                          * scipy.random.random() \\
                          * (bestPosition - particle.position)

            diff_memory = self.memory \\
                          * scipy.random.random() \\
                          * (particle.bestPosition - particle.position)

            particle.velocity *= self.inertia
            particle.velocity += diff_memory + diff_social
            particle.move()
''', '''            diff_social = self._attraction(self.sociality, bestPosition, particle)
            diff_memory = self._attraction(self.memory, particle.bestPosition, particle)
            particle.velocity *= self.inertia
            particle.velocity += diff_memory + diff_social
            particle.move()

    def _attraction(self, strength, goal, particle):
        return strength * scipy.random.random() * (goal - particle.position)
'''), ('''        picker = min if self.minimize else max
        return picker(particlelist, key=lambda p: p.fitness)
''', '''        if self.minimize:
            return min(particlelist, key=lambda p: p.fitness)
        return max(particlelist, key=lambda p: p.fitness)
''')])
edit('optimization/populationbased/es.py', [('''        list(map(self._replaceByMutation, list(range(1, self._popsize))))
''', '''        for i in range(1, self._popsize):
            self._replaceByMutation(i)
'''), ('''        if self.elitism:
            list(map(self._replaceByMutation, list(range(self.mu, self._popsize))))
        else:
            list(map(self._replaceByMutation, list(range(self._popsize))))
''', '''        first = self.mu if self.elitism else 0
        for i in range(first, self._popsize):
            self._replaceByMutation(i)
'''), ('''        if self.elitism:
            return self.mu + self.lambada
        else:
            return self.lambada

    def''', '''        return self.lambada + (self.mu if self.elitism else 0)

    def'''), ('''        if self.evaluatorIsNoisy:
            return self._popsize
        else:
            return self.lambada
''', '''        if not self.evaluatorIsNoisy:
            return self.lambada
        return self._popsize
''')])
edit('supervised/trainers/rprop.py', [('''        errors = 0
        ponderation = 0
        for seq in self.ds._provideSequences():
            e, p = self._calcDerivs(seq)
            errors += e
            ponderation += p
''', '''        results = [self._calcDerivs(seq) for seq in self.ds._provideSequences()]
        errors = sum(e for e, p in results)
        ponderation = sum(p for e, p in results)
'''), ('''        self.module._setParameters(self.descent(self.module.derivs - self.weightdecay * self.module.params))
        self.epoch += 1
''', '''        self.epoch += 1
        gradient = self.module.derivs - self.weightdecay * self.module.params
        self.module._setParameters(self.descent(gradient))
''')])
edit('auxiliary/gradientdescent.py', [('''            # update momentum vector (momentum = 0 clears it)
            self.momentumvector *= self.momentum
            # update parameters (including momentum)
            self.momentumvector += self.alpha * gradient_arr
            self.alpha *= self.alphadecay
''', '''            # update momentum vector (momentum = 0 clears it)
            self.momentumvector = self.momentum * self.momentumvector + self.alpha * gradient_arr
            self.alpha *= self.alphadecay
'''), ('''            rprop_theta[dirSwitch > 0] *= self.etaplus
            idx =  dirSwitch < 0
            rprop_theta[idx] *= self.etaminus
            gradient_arr[idx] = 0
''', '''            idx = dirSwitch < 0
            rprop_theta[idx] *= self.etaminus
            rprop_theta[dirSwitch > 0] *= self.etaplus
            gradient_arr[idx] = 0
''')])
edit('optimization/distributionbased/cmaes.py', [('''        arfitness = zeros(self.batchSize)
        for k in range(self.batchSize):
            arfitness[k] = self._oneEvaluation(arx[:, k])
''', '''        arfitness = self._evaluateColumns(arx)
'''), ('''    def _learnStep(self):''', '''    def _evaluateColumns(self, points):
        fits = zeros(self.batchSize)
        for k in range(self.batchSize):
            fits[k] = self._oneEvaluation(points[:, k])
        return fits

    def _learnStep(self):'''), ('''        zmean = dot(arzsel, self.weights)
        self.center = dot(arxsel, self.weights)
''', '''        self.center = dot(arxsel, self.weights)
        zmean = dot(arzsel, self.weights)
''')])

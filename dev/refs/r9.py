edit('rl/learners/directsearch/enac.py', [('''        print((self.dataset.getNumSequences()))
        for n in range(self.dataset.getNumSequences()):
            _state, _action, reward = self.dataset.getSequence(n)
            seqidx = ravel(self.dataset['sequence_index']).astype(int)
            if n == self.dataset.getNumSequences() - 1:
                # last sequence until end of dataset
                loglh = self.loglh['loglh'][seqidx[n]:, :]
            else:
                loglh = self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]

            X[n, :-1] = sum(loglh, 0)
            R[n, 0] = sum(reward, 0)
''', '''        numSeqs = self.dataset.getNumSequences()
        print(numSeqs)
        for n in range(numSeqs):
            reward = self.dataset.getSequence(n)[2]
            seqidx = ravel(self.dataset['sequence_index']).astype(int)
            start = seqidx[n]
            if n < numSeqs - 1:
                stop = seqidx[n + 1]
                loglh = self.loglh['loglh'][start:stop, :]
            else:
                loglh = self.loglh['loglh'][start:, :]

            X[n, :-1] = sum(loglh, 0)
            R[n, 0] = sum(reward, 0)
''')])
edit('rl/learners/directsearch/reinforce.py', [('''        loglhs = [sum(self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]) for n in range(self.dataset.getNumSequences() - 1)]
''', '''        loglhs = []
        for n in range(self.dataset.getNumSequences() - 1):
            first, last = seqidx[n], seqidx[n + 1]
            loglhs.append(sum(self.loglh['loglh'][first:last, :]))
'''), ('''        baselines = mean(loglhs ** 2 * returns, 0) / mean(loglhs ** 2, 0)
''', '''        squared = loglhs ** 2
        baselines = mean(squared * returns, 0) / mean(squared, 0)
''')])
edit('rl/explorers/discrete/egreedy.py', [('''        if random.random() < self.epsilon:
            outbuf[:] = array([random.randint(self.module.numActions)])
        else:
            outbuf[:] = inbuf

        self.epsilon *= self.decay
''', '''        explore = random.random() < self.epsilon
        self.epsilon = self.epsilon * self.decay
        if not explore:
            outbuf[:] = inbuf
            return
        outbuf[:] = array([random.randint(self.module.numActions)])
''')])
edit('rl/explorers/discrete/boltzmann.py', [('''        values = self.module.getActionValues(self._state)
        action = drawGibbs(values, self.tau)
        self.tau *= self.decay
        outbuf[:] = array([action])
''', '''        temperature = self.tau
        self.tau = temperature * self.decay
        outbuf[:] = array([drawGibbs(self.module.getActionValues(self._state), temperature)])
''')])
edit('rl/learners/valuebased/interface.py', [('''        values = self.params.reshape(self.numRows, self.numColumns)[int(state), :].flatten()
        action = where(values == max(values))[0]
        action = choice(action)
        return action
''', '''        values = self.getActionValues(state)
        best = max(values)
        return choice(where(values == best)[0])
'''), ('''        values = array([self.network.activate(r_[state, one_to_n(i, self.numActions)]) for i in range(self.numActions)])
        return values
''', '''        values = []
        for i in range(self.numActions):
            values.append(self.getValue(state, i))
        return array(values)
''')])
edit('structure/networks/feedforward.py', [('''        index = 0
        offset = self.offset
        for m in self.inmodules:
            m.inputbuffer[offset] = inbuf[index:index + m.indim]
            index += m.indim
''', '''        offset = self.offset
        start = 0
        for m in self.inmodules:
            stop = start + m.indim
            m.inputbuffer[offset] = inbuf[start:stop]
            start = stop
'''), ('''        for m in reversed(self.modulesSorted):
            for c in self.connections[m]:
                c.backward()
            m.backward()
''', '''        for i in range(len(self.modulesSorted) - 1, -1, -1):
            mod = self.modulesSorted[i]
            for c in self.connections[mod]:
                c.backward()
            mod.backward()
''')])
edit('structure/modulemesh.py', [('''            tmp = constructor()
            self.components[coord] = tmp
            tmp.name = self.name + str(coord)
''', '''            tmp = constructor()
            tmp.name = '%s%s' % (self.name, coord)
            self.components[coord] = tmp
'''), ('''            nbunits = reduce(lambda x, y: x*y, dimensions, 1)
            insize = layer.indim // nbunits
            outsize = layer.outdim // nbunits
            for index in range(nbunits):
                yield ModuleSlice(layer, insize*index, insize*(index+1), outsize*index, outsize*(index+1))
''', '''            nbunits = 1
            for d in dimensions:
                nbunits *= d
            insize, outsize = layer.indim // nbunits, layer.outdim // nbunits
            for index in range(nbunits):
                infrom, outfrom = insize * index, outsize * index
                yield ModuleSlice(layer, infrom, infrom + insize, outfrom, outfrom + outsize)
''')])
edit('structure/moduleslice.py', [('''            if inSliceTo == None:
                inSliceTo = self.base.indim
            if outSliceTo == None:
                outSliceTo = self.base.outdim
            self.name = base.name
''', '''            inSliceTo = self.base.indim if inSliceTo is None else inSliceTo
            outSliceTo = self.base.outdim if outSliceTo is None else outSliceTo
            self.name = base.name
'''), ('''        assert self.inOffset >= 0 and self.outOffset >= 0
        self.indim = inSliceTo - inSliceFrom
        self.outdim = outSliceTo - outSliceFrom
''', '''        assert self.inOffset >= 0 and self.outOffset >= 0
        self.outdim = outSliceTo - outSliceFrom
        self.indim = inSliceTo - inSliceFrom
''')])
edit('structure/connections/shared.py', [('''        self.setArgs(mother = mother)
        self.paramdim = self.mother.paramdim
''', '''        self.setArgs(mother = mother)
        self.paramdim = mother.paramdim
'''), ('''        return self.mother.name if self._name is None else self._name
''', '''        if self._name is not None:
            return self._name
        return self.mother.name
''')])
edit('optimization/distributionbased/xnes.py', [('''        covTrace = trace(covGradient)
        covGradient -= covTrace/self.numParameters * I
        dA = 0.5 * (self.scaleLearningRate * covTrace/self.numParameters * I
                    +self.covLearningRate * covGradient)
''', '''        covTrace = trace(covGradient)
        isotropic = covTrace/self.numParameters * I
        covGradient = covGradient - isotropic
        dA = (self.scaleLearningRate * isotropic + self.covLearningRate * covGradient) / 2.
'''), ('''        if self._wasUnwrapped:
            return [self._allEvaluated[i].params for i in self._pointers]
        else:
            return [self._allEvaluated[i] for i in self._pointers]
''', '''        evaluated = [self._allEvaluated[i] for i in self._pointers]
        if self._wasUnwrapped:
            evaluated = [e.params for e in evaluated]
        return evaluated
''')])
edit('optimization/memetic/memetic.py', [('''        tm = self._initEvaluable.__class__.topologyMutate
        m = self._initEvaluable.__class__.mutate
        self._initEvaluable.__class__.topologyMutate = m
        self._initEvaluable.__class__.mutate = tm
''', '''        cls = self._initEvaluable.__class__
        cls.topologyMutate, cls.mutate = cls.mutate, cls.topologyMutate
''')])
edit('structure/evolvables/maskedparameters.py', [('''            x = zeros(self.paramdim)
            paramcount = 0
            for i in range(len(self.maskableParams)):
                if self.mask[i] == True:
                    x[paramcount] = self.maskableParams[i]
                    paramcount += 1
            return x
''', '''            x = zeros(self.paramdim)
            position = 0
            for i, value in enumerate(self.maskableParams):
                if not self.mask[i]:
                    continue
                x[position] = value
                position += 1
            return x
''')])
edit('structure/evolvables/cheaplycopiable.py', [('''    def copy(self):
        self.__stored._params[:] = self._params
        cp = CheaplyCopiable(self.__stored)
        return cp
''', '''    def copy(self):
        self._push()
        return CheaplyCopiable(self.__stored)

    def _push(self):
        self.__stored._params[:] = self._params
''')])
edit('rl/learners/valuebased/qlambda.py', [('''        for i in range(states.shape[0] - 1, 0, -1):
            lbda = self.qlambda ** (states.shape[0] - 1 - i)
''', '''        last = states.shape[0] - 1
        for i in range(last, 0, -1):
            age = last - i
            lbda = self.qlambda ** age
'''), ('''            self.module.updateValue(laststate, lastaction, qvalue + self.alpha * lbda * (lastreward + self.gamma * maxnext - qvalue))
''', '''            tderror = lastreward + self.gamma * maxnext - qvalue
            self.module.updateValue(laststate, lastaction, qvalue + lbda * self.alpha * tderror)
''')])
edit('structure/modules/biasunit.py', [('''        outbuf[:] = 1
''', '''        outbuf[:] = 1.
''')])
edit('structure/networks/bidirectional.py', [('''            if i > 0:
                # forward in time
                self.addConnection(SharedFullConnection(forwardconn, hiddenmesh[(0, i - 1)], hiddenmesh[(0, i)]))
            if i < self.seqlen - 1:
                # backward in time
                self.addConnection(SharedFullConnection(backwardconn, hiddenmesh[(1, i + 1)], hiddenmesh[(1, i)]))
''', '''            forward, backward = hiddenmesh[(0, i)], hiddenmesh[(1, i)]
            if i >= 1:
                # forward in time
                self.addConnection(SharedFullConnection(forwardconn, hiddenmesh[(0, i - 1)], forward))
            if i + 1 < self.seqlen:
                # backward in time
                self.addConnection(SharedFullConnection(backwardconn, hiddenmesh[(1, i + 1)], backward))
''')])
edit('unsupervised/trainers/rbm.py', [('''                mm = cfg.iniMm if t < cfg.mmSwitchIter else cfg.finMm
                w, hb, vb = self.calcUpdateByRows(rows)
''', '''                if t >= cfg.mmSwitchIter:
                    mm = cfg.finMm
                else:
                    mm = cfg.iniMm
                w, hb, vb = self.calcUpdateByRows(rows)
''')])

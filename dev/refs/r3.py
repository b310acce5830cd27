edit('datasets/classification.py', [('''        elif self.indim != other.indim:
            raise TypeError('DataSets to be added must agree in input dimensions')
        elif self.outdim != 1 or other.outdim != 1:
            raise TypeError('Cannot add DataSets in 1-of-k representation')
        elif self.nClasses != other.nClasses:
            raise IndexError('Number of classes does not agree')
        else:
            result = self.copy()
            for pat in other:
                result.addSample(*pat)
            result.assignClasses()
        return result
''', '''        if self.indim != other.indim:
            raise TypeError('DataSets to be added must agree in input dimensions')
        if not (self.outdim == 1 and other.outdim == 1):
            raise TypeError('Cannot add DataSets in 1-of-k representation')
        if self.nClasses != other.nClasses:
            raise IndexError('Number of classes does not agree')
        result = self.copy()
        for inp, target in other:
            result.addSample(inp, target)
        result.assignClasses()
        return result
'''), ('''        self.classHist = {}
        flat_labels = list(ravel(self['class']))
        for class_ in range(self.nClasses):
            self.classHist[class_] = flat_labels.count(class_)
        return self.classHist
''', '''        flat_labels = list(ravel(self['class']))
        self.classHist = dict((c, flat_labels.count(c)) for c in range(self.nClasses))
        return self.classHist
'''), ('''        if self.outdim != 1:
            # we already have the correct representation (hopefully...)
            return
        if self.nClasses <= 0:
            self.calculateStatistics()
        oldtarg = self.getField('target')
        newtarg = zeros([len(self), self.nClasses], dtype='int32') + bounds[0]
        for i in range(len(self)):
            newtarg[i, int(oldtarg[i])] = bounds[1]
        self.setField('target', newtarg)
        self.setField('class', oldtarg)
''', '''        if self.outdim == 1:
            if self.nClasses <= 0:
                self.calculateStatistics()
            off, on = bounds[0], bounds[1]
            n = len(self)
            oldtarg = self.getField('target')
            newtarg = zeros([n, self.nClasses], dtype='int32') + off
            for i in range(n):
                newtarg[i, int(oldtarg[i])] = on
            self.setField('target', newtarg)
            self.setField('class', oldtarg)
'''), ('''        newtarg = self.getField('class')
        self.setField('target', newtarg)
''', '''        self.setField('target', self.getField('class'))
'''), ('''        splitThis = []
        for f in ['input', 'target', 'class', 'importance', 'aux']:
            if self.hasField(f):
                splitThis.append(f)
        for field in splitThis:
            leftDs.setField(field, self[field][leftIndices, :])
            leftDs.endmarker[field] = len(leftIndices)
            rightDs.setField(field, self[field][rightIndices, :])
            rightDs.endmarker[field] = len(rightIndices)
        leftDs.assignClasses()
        rightDs.assignClasses()
''', '''        splitThis = [f for f in ['input', 'target', 'class', 'importance', 'aux'] if self.hasField(f)]
        for part, rows in ((leftDs, leftIndices), (rightDs, rightIndices)):
            for field in splitThis:
                part.setField(field, self[field][rows, :])
                part.endmarker[field] = len(rows)
        leftDs.assignClasses()
        rightDs.assignClasses()
'''), ('''        fields = self.getFieldNames()
        fields.remove('target')
        for f in fields:
            regDs.setField(f, self[f])
''', '''        for f in self.getFieldNames():
            if f != 'target':
                regDs.setField(f, self[f])
'''), ('''            if index < lastSeq:
                return self['class'][self['sequence_index'].astype(int)[index + 1, 0] - 1, 0]
            elif index == lastSeq:
                return self['class'][len(self) - 1, 0]
            raise IndexError("Sequence index out of range!")
''', '''            if index > lastSeq:
                raise IndexError("Sequence index out of range!")
            if index == lastSeq:
                end = len(self)
            else:
                end = self['sequence_index'].astype(int)[index + 1, 0]
            return self['class'][end - 1, 0]
'''), ('''            idx, = where(classes == c)
            nCls = len(idx)
            perm = permutation(nCls).tolist()
            nTst, nVal = (int(testfrac * nCls), int(evalfrac * nCls))
            for count, ds in zip([nTst, nVal, nCls - nTst - nVal], [tstDs, valDs, trnDs]):
                for _ in range(count):
                    feat = self.getSequence(idx[perm.pop()])[0]
                    ds.newSequence()
                    for s in feat:
                        ds.addSample(s, [c])
                ds.assignClasses()
''', '''            idx, = where(classes == c)
            nCls = len(idx)
            perm = permutation(nCls).tolist()
            nTst = int(testfrac * nCls)
            nVal = int(evalfrac * nCls)
            self._moveSequences(nTst, tstDs, idx, perm, c)
            self._moveSequences(nVal, valDs, idx, perm, c)
            self._moveSequences(nCls - nTst - nVal, trnDs, idx, perm, c)
'''), ('''    def getSequenceClass(self, index=None):''', '''    def _moveSequences(self, count, ds, idx, perm, c):
        for _ in range(count):
            feat = self.getSequence(idx[perm.pop()])[0]
            ds.newSequence()
            for s in feat:
                ds.addSample(s, [c])
        ds.assignClasses()

    def getSequenceClass(self, index=None):''')])
edit('rl/learners/valuebased/interface.py', [('''        values = self.params.reshape(self.numRows, self.numColumns)[int(state), :].flatten()
        action = where(values == max(values))[0]
        action = choice(action)
        return action
''', '''        values = self.getActionValues(state)
        best = where(values == max(values))[0]
        return choice(best)
'''), ('''        values = array([self.network.activate(r_[state, one_to_n(i, self.numActions)]) for i in range(self.numActions)])
        return values
''', '''        return array([self.getValue(state, a) for a in range(self.numActions)])
''')])
edit('rl/learners/valuebased/linearfa.py', [('''        if temperature == 0:
            tmp = zeros(len(qvalues))        
            tmp[r_argmax(qvalues)] = 1.
        else:
            tmp = qvalues / temperature            
            tmp -= max(tmp)        
            tmp = exp(clip(tmp, -20, 0))
        return tmp / sum(tmp)
''', '''        if temperature != 0:
            scaled = qvalues / temperature
            tmp = exp(clip(scaled - max(scaled), -20, 0))
        else:
            tmp = zeros(len(qvalues))
            tmp[r_argmax(qvalues)] = 1.
        return tmp / sum(tmp)
'''), ('''    """ Standard Q-learning with linear FA. """
    
    def _updateWeights(self, state, action, reward, next_state):
        """ state and next_state are vectors, action is an integer. """
        td_error = reward + self.rewardDiscount * max(dot(self._theta, next_state)) - dot(self._theta[action], state) 
''', '''    """ Standard Q-learning with linear FA. """

    def _tdError(self, state, action, reward, next_state):
        estimate = dot(self._theta[action], state)
        return reward + self.rewardDiscount * max(self._qValues(next_state)) - estimate

    def _updateWeights(self, state, action, reward, next_state):
        """ state and next_state are vectors, action is an integer. """
        td_error = self._tdError(state, action, reward, next_state)
'''), ('''        td_error = reward + self.rewardDiscount * dot(self._theta[next_action], next_state) - dot(self._theta[action], state)
        self._updateEtraces(state, action)
        self._theta += self.learningRate * td_error * self._etraces  
''', '''        self._updateEtraces(state, action)
        td_error = reward + self.rewardDiscount * dot(self._theta[next_action], next_state) - dot(self._theta[action], state)
        step = self.learningRate * td_error
        self._theta += step * self._etraces
'''), ('''        phi = zeros((self.num_actions, self.num_features))
        phi[action] += state        
        phi = ravel(phi)
        
        phi_n = zeros((self.num_actions, self.num_features))
        phi_n[next_action] += next_state
        phi_n = ravel(phi_n)
''', '''        phi = self._features(state, action)
        phi_n = self._features(next_state, next_action)
'''), ('''        self._untouched = ones(phi_size, dtype=bool)
        self._count = 0
''', '''        self._untouched = ones(phi_size, dtype=bool)
        self._count = 0

    def _features(self, state, action):
        phi = zeros((self.num_actions, self.num_features))
        phi[action] += state
        return ravel(phi)
''')])
edit('rl/learners/valuebased/nfq.py', [('''        for seq in self.dataset:
            lastexperience = None
            for state, action, reward in seq:
                if not lastexperience:
                    # delay each experience in sequence by one
                    lastexperience = (state, action, reward)
                    continue
                # use experience from last timestep to do Q update
                (state_, action_, reward_) = lastexperience
                Q = self.module.getValue(state_, action_[0])
                inp = r_[state_, one_to_n(action_[0], self.module.numActions)]
                tgt = Q + 0.5*(reward_ + self.gamma * max(self.module.getActionValues(state)) - Q)
                supervised.addSample(inp, tgt)
                # update last experience with current one
                lastexperience = (state, action, reward)
''', '''        for seq in self.dataset:
            lastexperience = None
            for state, action, reward in seq:
                if lastexperience:
                    # use experience from last timestep to do Q update
                    (state_, action_, reward_) = lastexperience
                    a = action_[0]
                    inp = r_[state_, one_to_n(a, self.module.numActions)]
                    Q = self.module.getValue(state_, a)
                    tgt = 0.5 * Q + 0.5 * (reward_ + self.gamma * max(self.module.getActionValues(state)))
                    supervised.addSample(inp, tgt)
                # update last experience with current one
                lastexperience = (state, action, reward)
''')])
edit('rl/learners/valuebased/q.py', [('''                if self.laststate == None:
                    self.lastaction = action
                    self.laststate = state
                    self.lastreward = reward
                    continue
                qvalue = self.module.getValue(self.laststate, self.lastaction)
                maxnext = self.module.getValue(state, self.module.getMaxAction(state))
                self.module.updateValue(self.laststate, self.lastaction, qvalue + self.alpha * (self.lastreward + self.gamma * maxnext - qvalue))
                # move state to oldstate
''', '''                if self.laststate is not None:
                    self._update(state)
                # move state to oldstate
'''), ('''    def learn(self):''', '''    def _update(self, state):
        s, a = self.laststate, self.lastaction
        qvalue = self.module.getValue(s, a)
        maxnext = self.module.getValue(state, self.module.getMaxAction(state))
        target = self.lastreward + self.gamma * maxnext
        self.module.updateValue(s, a, (1 - self.alpha) * qvalue + self.alpha * target)

    def learn(self):''')])
edit('rl/learners/valuebased/sarsa.py', [('''        if self.batchMode:
            samples = self.dataset
        else:
            samples = [[self.dataset.getSample()]]
''', '''        samples = self.dataset if self.batchMode else [[self.dataset.getSample()]]
'''), ('''                qvalue = self.module.getValue(self.laststate, self.lastaction)
                qnext = self.module.getValue(state, action)
                self.module.updateValue(self.laststate, self.lastaction, qvalue + self.alpha * (self.lastreward + self.gamma * qnext - qvalue))
''', '''                qvalue = self.module.getValue(self.laststate, self.lastaction)
                qnext = self.module.getValue(state, action)
                delta = self.lastreward + self.gamma * qnext - qvalue
                self.module.updateValue(self.laststate, self.lastaction, qvalue + self.alpha * delta)
''')])
edit('rl/learners/valuebased/qlambda.py', [('''        for i in range(states.shape[0] - 1, 0, -1):
            lbda = self.qlambda ** (states.shape[0] - 1 - i)
''', '''        n = states.shape[0]
        for age in range(n - 1):
            i = n - 1 - age
            lbda = self.qlambda ** age
''')])
edit('rl/learners/valuebased/valuebased.py', [('''        if self.explorer:
            self.explorer.module = module
        self._module = module
''', '''        self._module = module
        if self.explorer:
            self.explorer.module = module
''')])
edit('rl/explorers/continuous/normal.py', [('''        expln_sigma = expln(self.sigma)
        self._derivs += ((outbuf - inbuf) ** 2 - expln_sigma ** 2) / expln_sigma * explnPrime(self.sigma)
        inerr[:] = (outbuf - inbuf)
''', '''        noise = outbuf - inbuf
        inerr[:] = noise
        expln_sigma = expln(self.sigma)
        self._derivs += (noise ** 2 / expln_sigma - expln_sigma) * explnPrime(self.sigma)
''')])

edit('supervised/trainers/backprop.py', [('''        shuffledSequences = []
        for seq in self.ds._provideSequences():
            shuffledSequences.append(seq)
        shuffle(shuffledSequences)
''', '''        shuffledSequences = [seq for seq in self.ds._provideSequences()]
        shuffle(shuffledSequences)
'''), ('''                gradient = self.module.derivs - self.weightdecay * self.module.params
                new = self.descent(gradient, errors)
                if new is not None:
                    self.module.params[:] = new
                self.module.resetDerivatives()
''', '''                self._onlineUpdate(errors)
'''), ('''    def _calcDerivs(self, seq):''', '''    def _regularizedGradient(self):
        return self.module.derivs - self.weightdecay * self.module.params

    def _onlineUpdate(self, errors):
        new = self.descent(self._regularizedGradient(), errors)
        if new is not None:
            self.module.params[:] = new
        self.module.resetDerivatives()

    def _calcDerivs(self, seq):'''), ('''            gradient = self.module.derivs - self.weightdecay * self.module.params
            self.module._setParameters(self.descent(gradient))
''', '''            self.module._setParameters(self.descent(self._regularizedGradient()))
'''), ('''        for offset, sample in reversed(list(enumerate(seq))):''', '''        for offset in range(len(seq) - 1, -1, -1):
            sample = seq[offset]''')])
edit('optimization/optimizer.py', [('''            if (self.numEvaluations == 0
                or self.bestEvaluation is None
                or (self.minimize and res <= self.bestEvaluation)
                or (not self.minimize and res >= self.bestEvaluation)):
                self.bestEvaluation = res
                self.bestEvaluable = evaluable.copy()
''', '''            if self._atLeastAsGood(res):
                self.bestEvaluable = evaluable.copy()
                self.bestEvaluation = res
'''), ('''    def _stoppingCriterion(self):
        if self.maxEvaluations is not None and self.numEvaluations+self.batchSize > self.maxEvaluations:
            return True
        if self.desiredEvaluation is not None and self.bestEvaluation is not None and isscalar(self.bestEvaluation):
            if ((self.minimize and self.bestEvaluation <= self.desiredEvaluation)
                or (not self.minimize and self.bestEvaluation >= self.desiredEvaluation)):
                return True
        if self.maxLearningSteps is not None and self.numLearningSteps >= self.maxLearningSteps:
            return True
        return False
''', '''    def _atLeastAsGood(self, res):
        if self.numEvaluations == 0 or self.bestEvaluation is None:
            return True
        if self.minimize:
            return res <= self.bestEvaluation
        return res >= self.bestEvaluation

    def _stoppingCriterion(self):
        if self.maxLearningSteps is not None and self.numLearningSteps >= self.maxLearningSteps:
            return True
        if self.maxEvaluations is not None and self.maxEvaluations < self.numEvaluations + self.batchSize:
            return True
        if self.desiredEvaluation is None or self.bestEvaluation is None or not isscalar(self.bestEvaluation):
            return False
        if self.minimize:
            return bool(self.bestEvaluation <= self.desiredEvaluation)
        else:
            return bool(self.bestEvaluation >= self.desiredEvaluation)
''')])
edit('optimization/populationbased/ga.py', [('''        for i in range(len(parents)//2):
            p1 = parents[i]
            p2 = parents[i+(len(parents)//2)]
            if xdim < 2:
                children.append(p1)
                children.append(p2)
            else:
                point = choice(list(range(xdim-1)))
                point += 1
                res = zeros(xdim)
                res[:point] = p1[:point]
                res[point:] = p2[point:]
                children.append(res)
                res = zeros(xdim)
                res[:point] = p2[:point]
                res[point:] = p1[point:]
                children.append(res)
''', '''        half = len(parents)//2
        for p1, p2 in zip(parents[:half], parents[half:2*half]):
            if xdim < 2:
                children += [p1, p2]
            else:
                point = choice(list(range(xdim-1))) + 1
                children.append(self._recombine(p1, p2, point))
                children.append(self._recombine(p2, p1, point))
'''), ('''    def childexist(self,indiv,pop):''', '''    def _recombine(self, first, second, point):
        child = zeros(self.numParameters)
        child[:point] = first[:point]
        child[point:] = second[point:]
        return child

    def childexist(self,indiv,pop):'''), ('''        for i in range(self.numParameters):
            if random() < self.mutationProb:
                if self.xBound is None:
                    res[i] = indiv[i] + gauss(0, self.mutationStdDev)
                else:
                    res[i] = max(min(indiv[i] + gauss(0, self.mutationStdDev),self.maxs[i]),
                             self.mins[i])
        return res

    def old_jpq_mutated''', '''        for i in range(self.numParameters):
            if random() >= self.mutationProb:
                continue
            gene = indiv[i] + gauss(0, self.mutationStdDev)
            if self.xBound is not None:
                gene = max(min(gene, self.maxs[i]), self.mins[i])
            res[i] = gene
        return res

    def old_jpq_mutated''')])
edit('rl/environments/twoplayergames/capturegame.py', [('''        res = []
        if pos[1] < self.size - 1: res.append((pos[0], pos[1] + 1))
        if pos[1] > 0: res.append((pos[0], pos[1] - 1))
        if pos[0] < self.size - 1: res.append((pos[0] + 1, pos[1]))
        if pos[0] > 0: res.append((pos[0] - 1, pos[1]))
        return res
''', '''        res = []
        x, y = pos
        if y < self.size - 1:
            res.append((x, y + 1))
        if y > 0:
            res.append((x, y - 1))
        if x < self.size - 1:
            res.append((x + 1, y))
        if x > 0:
            res.append((x - 1, y))
        return res
'''), ('''        if pos == 'resign':
            self.winner = -c
            return True
        elif not self.isLegal(c, pos):
            return False
        elif self._suicide(c, pos):
            assert self.suicideenabled
            self.b[pos] = 'y'
            self.winner = -c
            return True
        elif self._capture(c, pos):
            self.winner = c
            self.b[pos] = 'x'
            return True
        else:
            self._setStone(c, pos)
            return True
''', '''        if pos == 'resign':
            self.winner = -c
            return True
        if not self.isLegal(c, pos):
            return False
        if self._suicide(c, pos):
            assert self.suicideenabled
            self._finish(pos, 'y', -c)
        elif self._capture(c, pos):
            self._finish(pos, 'x', c)
        else:
            self._setStone(c, pos)
        return True

    def _finish(self, pos, mark, winner):
        self.b[pos] = mark
        self.winner = winner
'''), ('''        for i, p in enumerate(self._iterPos()):
            if self.b[p] == self.WHITE:
                a[2 * i] = 1
            elif self.b[p] == self.BLACK:
                a[2 * i + 1] = 1
        return a
''', '''        i = 0
        for p in self._iterPos():
            stone = self.b[p]
            if stone == self.WHITE:
                a[i] = 1
            elif stone == self.BLACK:
                a[i + 1] = 1
            i += 2
        return a
''')])
edit('datasets/sequential.py', [('''        seq = ravel(self.getField('sequence_index')).astype(int)
        if len(seq) == index + 1:
            # user wants to access the last sequence, return until end of data
            return self.getField(field)[seq[index]:]
        if len(seq) < index + 1:
            # sequence index beyond number of sequences. raise exception
            raise IndexError('sequence does not exist.')
        return self.getField(field)[seq[index]:seq[index + 1]]
''', '''        seq = self._starts()
        n = len(seq)
        if index >= n:
            # sequence index beyond number of sequences. raise exception
            raise IndexError('sequence does not exist.')
        rows = self.getField(field)
        if index == n - 1:
            # user wants to access the last sequence, return until end of data
            return rows[seq[index]:]
        return rows[seq[index]:seq[index + 1]]

    def _starts(self):
        return ravel(self.getField('sequence_index')).astype(int)
'''), ('''        seq = ravel(self.getField('sequence_index')).astype(int)
        if len(seq) == index + 1:
            # user wants to access the last sequence, return until end of data
            return int(self.getLength() - seq[index])
        if len(seq) < index + 1:
            # sequence index beyond number of sequences. raise exception
            raise IndexError('sequence does not exist.')
        return int(seq[index + 1] - seq[index])
''', '''        seq = self._starts()
        if len(seq) < index + 1:
            # sequence index beyond number of sequences. raise exception
            raise IndexError('sequence does not exist.')
        end = self.getLength() if len(seq) == index + 1 else seq[index + 1]
        return int(end - seq[index])
'''), ('''        length = self.getLength()
        if length != 0:
            if ravel(self.getField('sequence_index'))[-1] == length:
                raise EmptySequenceError
            self._appendUnlinked('sequence_index', length)
''', '''        length = self.getLength()
        if length == 0:
            return
        last = ravel(self.getField('sequence_index'))[-1]
        if last == length:
            raise EmptySequenceError
        self._appendUnlinked('sequence_index', length)
''')])
edit('datasets/dataset.py', [('''        length = self[linklist[0]].shape[0]
        for l in linklist:
            if self[l].shape[0] != length:
                raise OutOfSyncError
        self.link = linklist
''', '''        length = self[linklist[0]].shape[0]
        if any(self[l].shape[0] != length for l in linklist):
            raise OutOfSyncError
        self.link = linklist
'''), ('''        if index == None:
            # no index given, return the currently marked line and step marker one line forward
            index = self.index
            self.index += 1
        else:
            # return the indexed line and move marker to next line
            self.index = index + 1
        if index >= self.getLength():
''', '''        if index is None:
            # no index given, use the currently marked line
            index = self.index
        # move marker to next line
        self.index = index + 1
        if index >= self.getLength():
'''), ('''        if self.link == []:
            try:
                length = max(self.endmarker.values())
            except ValueError:
                return 0
            return length
        else:
            # all linked fields have equal length. return the length of the first.
            l = self.link[0]
            return self.endmarker[l]
''', '''        if self.link != []:
            # all linked fields have equal length. return the length of the first.
            return self.endmarker[self.link[0]]
        try:
            return max(self.endmarker.values())
        except ValueError:
            return 0
'''), ('''        for k in keys:
            shape = list(self.data[k].shape)
            # set to zero rows
            shape[0] = 0
            self.data[k] = zeros(shape)
            self.endmarker[k] = 0
''', '''        for k in keys:
            self.data[k] = zeros([0] + list(self.data[k].shape)[1:])
            self.endmarker[k] = 0
''')])
edit('rl/learners/modelbased/policyiteration.py', [('''    while maxIters > 0:
        V = VEvaluator(T)
        newpolicy, T = greedyPolicy(Ts, R, discountFactor, V)
        # if the probabilities are not changing more than by 0.001, we're done.
        if sum(ravel(abs(newpolicy - policy))) < 1e-3:
            return policy, T
        policy = newpolicy
        maxIters -= 1
    return policy, T
''', '''    for _ in range(maxIters):
        newpolicy, T = greedyPolicy(Ts, R, discountFactor, VEvaluator(T))
        change = sum(ravel(abs(newpolicy - policy)))
        # if the probabilities are not changing more than by 0.001, we're done.
        if change < 1e-3:
            break
        policy = newpolicy
    return policy, T
'''), ('''    dim = len(Qs)
    numA = len(Qs[0])
    policy = zeros((dim, numA))
    for si in range(dim):
        actions = all_argmax(Qs[si])
        for a in actions:
            policy[si, a] = 1. / len(actions)    
    return policy
''', '''    policy = zeros((len(Qs), len(Qs[0])))
    for si, row in enumerate(Qs):
        actions = all_argmax(row)
        share = 1. / len(actions)
        for a in actions:
            policy[si, a] = share
    return policy
'''), ('''    for si in range(dim):
        for a in range(numA):
            Qs[si, a] = dot(Ts[a][si], Vnext)   
    return Qs
''', '''    for a, T in enumerate(Ts):
        for si in range(dim):
            Qs[si, a] = dot(T[si], Vnext)
    return Qs
''')])
edit('rl/environments/task.py', [('''        result = []
        for l, a in zip(self.actor_limits, actors):
            if not l:
                result.append(a)
            else:
                r = (a + 1.0) / 2 * (l[1] - l[0]) + l[0]
                if self.clipping:
                    r = clip(r, l[0], l[1])
                result.append(r)

        return result
''', '''        return [self._denormalizeOne(l, a) for l, a in zip(self.actor_limits, actors)]

    def _denormalizeOne(self, l, a):
        if not l:
            return a
        lower, upper = l
        r = lower + 0.5 * (a + 1.0) * (upper - lower)
        return clip(r, lower, upper) if self.clipping else r
''')])
edit('rl/environments/episodic.py', [('''        if self.discount:
            self.cumreward += power(self.discount, self.samples) * self.getReward()
        else:
            self.cumreward += self.getReward()
''', '''        reward = self.getReward()
        if self.discount:
            reward = power(self.discount, self.samples) * reward
        self.cumreward += reward
''')])
edit('rl/agents/logging.py', [('''        self.lastobs = None
        self.lastaction = None
        self.lastreward = None

        self.history.clear()''', '''        self.lastobs = self.lastaction = self.lastreward = None
        self.history.clear()''')])
edit('rl/experiments/experiment.py', [('''        self.stepid += 1
        self.agent.integrateObservation(self.task.getObservation())
        self.task.performAction(self.agent.getAction())
        reward = self.task.getReward()
        self.agent.giveReward(reward)
        return reward
''', '''        agent, task = self.agent, self.task
        self.stepid += 1
        observation = task.getObservation()
        agent.integrateObservation(observation)
        action = agent.getAction()
        task.performAction(action)
        reward = task.getReward()
        agent.giveReward(reward)
        return reward
''')])
edit('rl/experiments/episodic.py', [('''            all_rewards = []
            for dummy in range(number):
                self.agent.newEpisode()
                rewards = []
                self.stepid = 0
                self.task.reset()
                while not self.task.isFinished():
                    r = self._oneInteraction()
                    rewards.append(r)
                all_rewards.append(rewards)
            return all_rewards
''', '''            return [self._oneEpisode() for _ in range(number)]

    def _oneEpisode(self):
        self.agent.newEpisode()
        self.stepid = 0
        self.task.reset()
        rewards = []
        while not self.task.isFinished():
            rewards.append(self._oneInteraction())
        return rewards
''')])
edit('rl/experiments/tournament.py', [('''        res = []
        for a in self.agents:
            for b in self.agents:
                if a != b:
                    res.append((a, b))
        return res
''', '''        return [(a, b) for a in self.agents for b in self.agents if a != b]
'''), ('''        if players not in self.results:
            self.results[players] = []
        wincolor = self.env.getWinner()''', '''        self.results.setdefault(players, [])
        wincolor = self.env.getWinner()'''), ('''                outcomes = self.results[(a1, a2)] + self.results[(a2, a1)]
                for r in outcomes:
                    if r == a1:
                        s += 1.
                    elif r == self.env.DRAW:
                        s += 0.5
''', '''                outcomes = self.results[(a1, a2)] + self.results[(a2, a1)]
                for r in outcomes:
                    s += 1. if r == a1 else (0.5 if r == self.env.DRAW else 0)
''')])
edit('rl/environments/twoplayergames/pente.py', [('''        for dir in [(0, 1), (1, 0), (1, 1), (1, -1)]:
            for d in [-1, 1]:
                killcands = []
''', '''        for dx, dy in [(0, 1), (1, 0), (1, 1), (1, -1)]:
            for d in [-1, 1]:
                killcands = []
'''), ('''                    next = (pos[0] + dir[0] * i * d, pos[1] + dir[1] * i * d)''', '''                    next = (pos[0] + dx * i * d, pos[1] + dy * i * d)''')])
edit('rl/environments/twoplayergames/gomoku.py', [('''                    if (next[0] < 0 or next[0] >= self.size[0]
                        or next[1] < 0 or next[1] >= self.size[1]
                        or self.b[next] != color):
                        break
                    else:
                        found += 1
''', '''                    if not self._onBoard(next) or self.b[next] != color:
                        break
                    found += 1
'''), ('''    @property
    def indim(self):''', '''    def _onBoard(self, p):
        return 0 <= p[0] < self.size[0] and 0 <= p[1] < self.size[1]

    @property
    def indim(self):''')])
edit('structure/networks/network.py', [('''        while len(roots) != 0:
            root = roots[0]
            roots = roots[1:]
            self.modulesSorted.append(root)''', '''        while roots:
            root = roots.pop(0)
            self.modulesSorted.append(root)'''), ('''        for m in self.modules:
            if m.name == name:
                return m
        return None
''', '''        return next((m for m in self.modules if m.name == name), None)
'''), ('''        ParameterContainer._setParameters(self, p, owner)
        index = 0
        for x in self._containerIterator():
            x._setParameters(self.params[index:index + x.paramdim], self)
            index += x.paramdim
''', '''        ParameterContainer._setParameters(self, p, owner)
        start = 0
        for container in self._containerIterator():
            end = start + container.paramdim
            container._setParameters(self.params[start:end], self)
            start = end
'''), ('''        self.indim = 0
        for m in self.inmodules:
            self.indim += m.indim
        self.outdim = 0
        for m in self.outmodules:
            self.outdim += m.outdim
''', '''        self.indim = sum([m.indim for m in self.inmodules])
        self.outdim = sum([m.outdim for m in self.outmodules])
''')])
edit('structure/networks/recurrent.py', [('''        if self.forget:
            return self.outputbuffer[self.offset].copy()
        else:
            return self.outputbuffer[self.offset - 1].copy()
''', '''        row = self.offset if self.forget else self.offset - 1
        return self.outputbuffer[row].copy()
'''), ('''        if not (self.offset + 1 < self.inputbuffer.shape[0]):''', '''        if self.offset + 1 >= len(self.inputbuffer):''')])
edit('structure/modules/module.py', [('''        for buffername, l  in self.bufferlist:
            buf = getattr(self, buffername)
            buf[:] = zeros(l)
''', '''        for buffername, _  in self.bufferlist:
            getattr(self, buffername)[:] = 0
'''), ('''        out = zeros((len(dataset), self.outdim))
        for i, sample in enumerate(dataset):
            # FIXME: Can we always assume that sample[0] is the input data?
            out[i, :] = self.activate(sample[0])
''', '''        out = zeros((len(dataset), self.outdim))
        i = 0
        for sample in dataset:
            # FIXME: Can we always assume that sample[0] is the input data?
            out[i] = self.activate(sample[0])
            i += 1
''')])

edit('datasets/supervised.py', [('''        if isscalar(inp):
            # add input and target fields and link them
            self.addField('input', inp)
            self.addField('target', target)
        else:
            self.setField('input', inp)
            self.setField('target', target)

        self.linkFields(['input', 'target'])
''', '''        create = self.addField if isscalar(inp) else self.setField
        for label, value in (('input', inp), ('target', target)):
            create(label, value)
        self.linkFields(['input', 'target'])
'''), ('''        return iter([[x] for x in iter(self)])
''', '''        return iter([[sample] for sample in self])
'''), ('''        for seq in self._provideSequences():
            e, p = self._evaluateSequence(f, seq, **args)
            totalError += e
            ponderation += p
        assert ponderation > 0
''', '''        for seq in self._provideSequences():
            result = self._evaluateSequence(f, seq, **args)
            totalError = totalError + result[0]
            ponderation = ponderation + result[1]
        assert ponderation > 0
'''), ('''            res = f(input)
            e = 0.5 * sum((target-res).flatten()**2)
            totalError += e
            ponderation += len(target)
            if verbose:''', '''            res = f(input)
            dif = (target - res).flatten()
            e = sum(dif * dif) / 2.
            ponderation += len(target)
            totalError += e
            if verbose:'''), ('''        res = 0.
        for dummy in range(averageOver):
            module.reset()
            res += self.evaluateMSE(module.activate, **args)
        return res/averageOver
''', '''        total = 0.
        for _ in range(averageOver):
            module.reset()
            total += self.evaluateMSE(module.activate, **args)
        return total / averageOver
'''), ('''        leftIndicies = indicies[:separator]
        rightIndicies = indicies[separator:]

        leftDs = SupervisedDataSet(inp=self['input'][leftIndicies].copy(),
                                   target=self['target'][leftIndicies].copy())
        rightDs = SupervisedDataSet(inp=self['input'][rightIndicies].copy(),
                                    target=self['target'][rightIndicies].copy())
        return leftDs, rightDs
''', '''        return (self._subset(indicies[:separator]),
                self._subset(indicies[separator:]))

    def _subset(self, which):
        return SupervisedDataSet(inp=self['input'][which].copy(),
                                 target=self['target'][which].copy())
''')])
edit('datasets/importance.py', [('''        if importance is None:
            importance = ones(len(target))
        self.appendLinked(inp, target, importance)
''', '''        weights = ones(len(target)) if importance is None else importance
        self.appendLinked(inp, target, weights)
'''), ('''            e = 0.5 * dot(importance.flatten(), ((target-res).flatten()**2))
''', '''            dif = (target - res).flatten()
            e = dot(importance.flatten(), dif ** 2) / 2
''')])
edit('rl/environments/task.py', [('''        result = []
        for l, s in zip(self.sensor_limits, sensors):
            if not l:
                result.append(s)
            else:
                r = (s - l[0]) / (l[1] - l[0]) * 2 - 1.0
                if self.clipping:
                    r = clip(r, -1, 1)
                result.append(r)
        return asarray(result)
''', '''        return asarray([self._scaled(l, s) for l, s in zip(self.sensor_limits, sensors)])

    def _scaled(self, limits, value):
        if not limits:
            return value
        low, high = limits[0], limits[1]
        r = 2 * (value - low) / (high - low) - 1.0
        return clip(r, -1, 1) if self.clipping else r
'''), ('''        result = []
        for l, a in zip(self.actor_limits, actors):
            if not l:
                result.append(a)
            else:
                r = (a + 1.0) / 2 * (l[1] - l[0]) + l[0]
                if self.clipping:
                    r = clip(r, l[0], l[1])
                result.append(r)

        return result
''', '''        result = []
        for i in range(len(actors)):
            l = self.actor_limits[i]
            r = actors[i]
            if l:
                low, high = l[0], l[1]
                r = low + (high - low) * (r + 1.0) / 2
                if self.clipping:
                    r = clip(r, low, high)
            result.append(r)
        return result
'''), ('''        sensors = self.env.getSensors()
        if self.sensor_limits:
            sensors = self.normalize(sensors)
        return sensors
''', '''        if not self.sensor_limits:
            return self.env.getSensors()
        return self.normalize(self.env.getSensors())
''')])
edit('rl/environments/episodic.py', [('''        if self.discount:
            self.cumreward += power(self.discount, self.samples) * self.getReward()
        else:
            self.cumreward += self.getReward()
''', '''        weight = power(self.discount, self.samples) if self.discount else 1
        self.cumreward += weight * self.getReward()
'''), ('''            if isinstance(x, Module):
                x.reset()
                self.reset()
                while not self.isFinished():
                    self.performAction(x.activate(self.getObservation()))
            elif''', '''            if isinstance(x, Module):
                self._runModule(x)
            elif'''), ('''    def f(self, x):
''', '''    def _runModule(self, module):
        module.reset()
        self.reset()
        while True:
            if self.isFinished():
                break
            obs = self.getObservation()
            self.performAction(module.activate(obs))

    def f(self, x):
''')])
edit('rl/environments/functions/transformations.py', [('''        if not basef.desiredValue is None:
            res.desiredValue = -basef.desiredValue
        res.toBeMinimized = not basef.toBeMinimized
        return res
    else:    
        return lambda x:-basef(x)
''', '''        res.toBeMinimized = not basef.toBeMinimized
        if basef.desiredValue is not None:
            res.desiredValue = -1 * basef.desiredValue
        return res
    def opposite(x):
        return -basef(x)
    return opposite
'''), ('''        if offset is None:
            self._offset = rand(basef.xdim)
            self._offset *= distance / norm(self._offset)
        else:
            self._offset = offset
        self.xopt = self.xopt + self._offset
''', '''        if offset is None:
            direction = rand(basef.xdim)
            offset = direction * distance / norm(direction)
        self._offset = offset
        self.xopt = self._offset + self.xopt
'''), ('''            if not self.toBeMinimized:
                penalizationFactor *= -1
                
            def scf(x):
                if isinstance(x, ParameterContainer):
                    x = x.params
                return basef.f(x) + penalize(x, distance) * penalizationFactor
''', '''            factor = penalizationFactor if self.toBeMinimized else -penalizationFactor

            def scf(x):
                point = x.params if isinstance(x, ParameterContainer) else x
                return factor * penalize(point, distance) + basef.f(point)
'''), ('''    ax = abs(x)
    tmp = clip(ax-distance, 0, ax.max())
    return dot(tmp, tmp)
''', '''    size = abs(x)
    excess = clip(size - distance, 0, size.max())
    return dot(excess, excess)
'''), ('''    diags = [power(alpha, i / (2 * dim - 2.)) for i in range(dim)]
    if shuffled:
''', '''    diags = []
    for i in range(dim):
        diags.append(power(alpha, i / (2. * (dim - 1))))
    if shuffled:
'''), ('''        elif rotate and asymmetry and not oscillate:
            if sparse:
                prefix = sparse_orth(self.xdim)
            else:
                prefix = dense_orth(self.xdim)
''', '''        elif rotate and asymmetry and not oscillate:
            orthogonal = sparse_orth if sparse else dense_orth
            prefix = orthogonal(self.xdim)
'''), ('''        if penalized != 0:
            if self.penalized:
                penalized = 0
            else:
                self.penalized = True
''', '''        if penalized != 0 and self.penalized:
            penalized = 0
        elif penalized != 0:
            self.penalized = True
''')])
edit('rl/environments/functions/function.py', [('''        if xdim is None:
            xdim = self.xdim
        if xdim is None:
            xdim = self.xdimMin
        assert xdim >= self.xdimMin and not (self.xdimMax is not None and xdim > self.xdimMax)
        self.xdim = xdim
        if xopt is None:
            self.xopt = zeros(self.xdim)
        else:
            self.xopt = xopt
''', '''        if xdim is None:
            xdim = self.xdimMin if self.xdim is None else self.xdim
        assert self.xdimMin <= xdim and (self.xdimMax is None or xdim <= self.xdimMax)
        self.xdim = xdim
        self.xopt = zeros(xdim) if xopt is None else xopt
'''), ('''        tmp = self.result
        assert tmp is not None
        self.result = None
        return array([tmp])
''', '''        assert self.result is not None
        value, self.result = self.result, None
        return array([value])
''')])
edit('structure/modules/mdlstm.py', [('''        self.maxoffset = max(self.offset + 1, self.maxoffset)
        size = self.dim
''', '''        size = self.dim
        self.maxoffset = max(self.maxoffset, self.offset + 1)
'''), ('''        cellx = inbuf[size*(1+self.dimensions):size*(2+self.dimensions)]
        self.outgatex[self.offset] = inbuf[size*(2+self.dimensions):size*(3+self.dimensions)]
        laststates = inbuf[size*(3+self.dimensions):]

        # Peephole''', '''        cell = size * (1 + self.dimensions)
        out = cell + size
        cellx = inbuf[cell:out]
        self.outgatex[self.offset] = inbuf[out:out + size]
        laststates = inbuf[out + size:]

        # Peephole'''), ('''        self.stateError[self.offset] = outerr * self.outgate[self.offset] * self.hprime(self.state[self.offset])
        self.stateError[self.offset] += nextstateerr
''', '''        self.stateError[self.offset] = (nextstateerr + self.outgate[self.offset] * outerr
                                        * self.hprime(self.state[self.offset]))
'''), ('''        for i in range(self.dimensions):
            self.forgetgateError[self.offset, size*i:size*(i+1)] = (self.fprime(self.forgetgatex[self.offset, size*i:size*(i+1)])
                                                                  * self.stateError[self.offset] * laststates[size*i:size*(i+1)])
''', '''        for i in range(self.dimensions):
            lo, hi = size * i, size * i + size
            self.forgetgateError[self.offset, lo:hi] = (self.fprime(self.forgetgatex[self.offset, lo:hi])
                                                        * laststates[lo:hi] * self.stateError[self.offset])
'''), ('''        if inputIndex != None:
            return inputIndex % self.dim
        if outputIndex != None:
            return outputIndex % self.dim''', '''        for index in (inputIndex, outputIndex):
            if index is not None:
                return index % self.dim
''')])
edit('structure/modules/statedependentlayer.py', [('''        if not self.enabled:
            outbuf[:] = inbuf
        else:
            outbuf[:] = inbuf + self.exploration
''', '''        outbuf[:] = inbuf
        if self.enabled:
            outbuf += self.exploration
''')])
edit('tools/functions.py', [('''    def f(val):
        if val < 0:
            # exponential function for x<0
            return safeExp(val)
        else:
            # linear function for x>=0
            return val + 1.0
    return array(list(map(f, x))).reshape(shape)
''', '''    res = [safeExp(val) if val < 0 else val + 1.0 for val in x]
    return array(res).reshape(shape)
'''), ('''    tmp = sigmoid(x)
    return tmp * (1 - tmp)
''', '''    s = sigmoid(x)
    return s - s ** 2
'''), ('''    tmp = tanh(x)
    return 1 - tmp * tmp
''', '''    return 1 - tanh(x) ** 2
'''), ('''    tmp = -0.5 * dot(dot((z - x), inv(sigma)), (z - x))
    res = (1. / power(2.0 * pi, len(z) / 2.)) * (1. / sqrt(det(sigma))) * exp(tmp)
    return res
''', '''    dif = z - x
    exponent = dot(dot(dif, inv(sigma)), dif) / -2
    return exp(exponent) / (power(2.0 * pi, len(z) / 2.) * sqrt(det(sigma)))
'''), ('''    if not onlyDiagonal:
        u, s, d = svd(sigma)
        coeffs = sqrt(s)
    else:
        coeffs = diag(sigma)
    r = rand(len(mu))
    res = coeffs * tan(pi * (r - 0.5))
    if not onlyDiagonal:
        res = dot(d, dot(res, u))
    return res + mu
''', '''    if onlyDiagonal:
        return mu + diag(sigma) * tan(pi * (rand(len(mu)) - 0.5))
    u, s, d = svd(sigma)
    res = sqrt(s) * tan(pi * (rand(len(mu)) - 0.5))
    return mu + dot(d, dot(res, u))
''')])
G = 'rl/environments/twoplayergames/capturegame.py'
edit(G, [('''        self.b = {}
        for p in self._iterPos():
            self.b[p] = self.EMPTY
''', '''        self.b = dict((p, self.EMPTY) for p in self._iterPos())
'''), ('''        if pos not in self.b:
            return False
        elif self.b[pos] != self.EMPTY:
            return False
        elif not self.suicideenabled:
            return not self._suicide(c, pos)
        return True
''', '''        if pos not in self.b or self.b[pos] != self.EMPTY:
            return False
        return self.suicideenabled or not self._suicide(c, pos)
'''), ('''        # any free neighbors?
        for n in self._neighbors(pos):
            if self.b[n] == self.EMPTY:
                return False

        # any friendly neighbor with extra liberties?
        for n in self._neighbors(pos):
            if self.b[n] == c:
                if len(self.liberties[self.groups[n]]) > 1:
                    return False

        # capture all surrounding ennemies?
        if self._capture(c, pos):
            return False

        return True
''', '''        around = self._neighbors(pos)
        # any free neighbors?
        if any(self.b[n] == self.EMPTY for n in around):
            return False
        # any friendly neighbor with extra liberties?
        for n in around:
            if self.b[n] == c and len(self.liberties[self.groups[n]]) > 1:
                return False
        # capture all surrounding ennemies?
        return not self._capture(c, pos)
'''), ('''        for n in self._neighbors(pos):
            if self.b[n] == -c:
                if len(self.liberties[self.groups[n]]) == 1:
                    return True
        return False
''', '''        return any(self.b[n] == -c and len(self.liberties[self.groups[n]]) == 1
                   for n in self._neighbors(pos))
'''), ('''        return len([x for x in list(self.groups.values()) if x == g])
''', '''        return list(self.groups.values()).count(g)
'''), ('''        for i, p in enumerate(self._iterPos()):
            if self.b[p] == self.WHITE:
                a[2 * i] = 1
            elif self.b[p] == self.BLACK:
                a[2 * i + 1] = 1
        return a
''', '''        for i, p in enumerate(self._iterPos()):
            stone = self.b[p]
            if stone == self.BLACK:
                a[2 * i + 1] = 1
            elif stone == self.WHITE:
                a[2 * i] = 1
        return a
'''), ('''        res = []
        if pos[1] < self.size - 1: res.append((pos[0], pos[1] + 1))
        if pos[1] > 0: res.append((pos[0], pos[1] - 1))
        if pos[0] < self.size - 1: res.append((pos[0] + 1, pos[1]))
        if pos[0] > 0: res.append((pos[0] - 1, pos[1]))
        return res
''', '''        i, j = pos
        last = self.size - 1
        res = []
        if j < last: res.append((i, j + 1))
        if j > 0: res.append((i, j - 1))
        if i < last: res.append((i + 1, j))
        if i > 0: res.append((i - 1, j))
        return res
''')])
edit('rl/environments/mazes/maze.py', [('''        res = []
        for i, row in enumerate(self.mazeTable):
            for j, p in enumerate(row):
                if p == False:
                    res.append((i, j))
        return res
''', '''        return [(i, j) for i, row in enumerate(self.mazeTable)
                for j, p in enumerate(row) if not p]
'''), ('''        if self.stochAction > 0:
            if random() < self.stochAction:
                action = choice(list(range(len(self.allActions))))
        tmp = self._moveInDir(self.perseus, self.allActions[action])
        if self.mazeTable[tmp] == False:
            self.perseus = tmp
            self.bang = False
        else:
            self.bang = True
''', '''        if self.stochAction > 0 and random() < self.stochAction:
            action = choice(list(range(len(self.allActions))))
        target = self._moveInDir(self.perseus, self.allActions[action])
        self.bang = not (self.mazeTable[target] == False)
        if not self.bang:
            self.perseus = target
''')])

edit('tools/validation.py', [('''        output = array(output)
        target = array(target)
        assert output.shape == target.shape
        if importance is not None:
            assert importance.shape == target.shape
            importance = importance.flatten()

        output = output.flatten()
        target = target.flatten()

        if importance is None:
            importance = ones(len(output))


        squared_error = (output - target) ** 2
        mse = dot(squared_error, importance) / sum(importance)


        return mse
''', '''        out = array(output)
        tgt = array(target)
        assert out.shape == tgt.shape
        if importance is None:
            weights = ones(len(out.flatten()))
        else:
            assert importance.shape == tgt.shape
            weights = importance.flatten()
        diff = out.flatten() - tgt.flatten()
        return dot(diff * diff, weights) / sum(weights)
'''), ('''        n_correct = sum(output == target)
        return float(n_correct) / float(len(output))
''', '''        total = float(len(output))
        return float(sum(output == target)) / total
'''), ('''        outputs = []
        for seq in dataset._provideSequences():
            module.reset()
            for i in range(len(seq)):
                output = module.activate(seq[i][0])
                outputs.append(output.copy())
        outputs = array(outputs)
        return outputs
''', '''        collected = []
        for seq in dataset._provideSequences():
            module.reset()
            for sample in seq:
                collected.append(module.activate(sample[0]).copy())
        return array(collected)
'''), ('''        if isinstance(dataset, SequentialDataSet) or isinstance(dataset, ImportanceDataSet):
            return cls._calculateModuleOutputSequential(module, dataset)
        else:
            module.reset()
            input = dataset.getField('input')
            output = array([module.activate(inp) for inp in input])
            return output
''', '''        if isinstance(dataset, (SequentialDataSet, ImportanceDataSet)):
            return cls._calculateModuleOutputSequential(module, dataset)
        module.reset()
        outputs = []
        for inp in dataset.getField('input'):
            outputs.append(module.activate(inp))
        return array(outputs)
'''), ('''        if isinstance(dataset, ImportanceDataSet):
            importance = dataset.getField('importance')
            return valfunc(output, target, importance)
        else:
            return valfunc(output, target)
''', '''        if not isinstance(dataset, ImportanceDataSet):
            return valfunc(output, target)
        return valfunc(output, target, dataset.getField('importance'))
'''), ('''        sequence_ends = delete(dataset.getField('sequence_index') - 1, 0)
        sequence_ends = append(sequence_ends, dataset.getLength() - 1)
        sequence_ends = array(sequence_ends)
        return sequence_ends
''', '''        last = dataset.getLength() - 1
        return array(append(delete(dataset.getField('sequence_index') - 1, 0), last))
'''), ('''        perf = 0.
        for i in range(n_folds):
''', '''        def subset(idxs):
            ds = SupervisedDataSet(indim, outdim)
            ds.setField("input", inp[idxs])
            ds.setField("target", tar[idxs])
            return ds

        perf = 0.
        for i in range(n_folds):
'''), ('''            train_perms_idxs = list(range(n_folds))
            train_perms_idxs.pop(i)
            temp_list = []
            for train_perms_idx in train_perms_idxs:
                temp_list.append(perms[ train_perms_idx ])
            train_idxs = concatenate(temp_list)
''', '''            train_idxs = concatenate([perms[j] for j in range(n_folds) if j != i])
'''), ('''            train_ds = SupervisedDataSet(indim, outdim)
            train_ds.setField("input"  , inp[train_idxs])
            train_ds.setField("target" , tar[train_idxs])
            trainer = copy.deepcopy(self._trainer)
            trainer.setData(train_ds)
            if not self._max_epochs:
                trainer.train()
            else:
                trainer.trainEpochs(self._max_epochs)
''', '''            trainer = copy.deepcopy(self._trainer)
            trainer.setData(subset(train_idxs))
            if self._max_epochs:
                trainer.trainEpochs(self._max_epochs)
            else:
                trainer.train()
'''), ('''            test_ds = SupervisedDataSet(indim, outdim)
            test_ds.setField("input"  , inp[test_idxs])
            test_ds.setField("target" , tar[test_idxs])
            perf += self._calculatePerformance(trainer.module, test_ds)

        perf /= n_folds
        return perf
''', '''            perf += self._calculatePerformance(trainer.module, subset(test_idxs))
        return perf / n_folds
''')])
edit('tools/functions.py', [('''    def f(val):
        if val < 0:
            # exponential function for x<0
            return safeExp(val)
        else:
            # linear function for x>=0
            return val + 1.0
    return array(list(map(f, x))).reshape(shape)
''', '''    values = [safeExp(v) if v < 0 else 1.0 + v for v in x]
    return array(values).reshape(shape)
'''), ('''    tmp = sigmoid(x)
    return tmp * (1 - tmp)
''', '''    s = sigmoid(x)
    return s - s * s
'''), ('''    tmp = tanh(x)
    return 1 - tmp * tmp
''', '''    return 1 - tanh(x) ** 2
'''), ('''    l = sorted(list(enumerate(R)), key=lambda a: a[1])
    l = sorted(list(enumerate(l)), key=lambda a: a[1][0])
    return array([kv[0] for kv in l])
''', '''    order = sorted(enumerate(R), key=lambda pair: pair[1])
    placed = sorted(enumerate(order), key=lambda pair: pair[1][0])
    return array([rank for rank, _ in placed])
'''), ('''    def f(val):
        if val < 0:
            # exponential function for x < 0
            return exp(val)
        else:
            # natural log function for x >= 0
            return log(val + 1.0) + 1
    try:
        result = array(list(map(f, x)))
    except TypeError:
        result = array(f(x))

    return result
''', '''    def f(v):
        return exp(v) if v < 0 else 1 + log(1.0 + v)
    try:
        return array([f(v) for v in x])
    except TypeError:
        return array(f(x))
'''), ('''    if not onlyDiagonal:
        u, s, d = svd(sigma)
        coeffs = sqrt(s)
    else:
        coeffs = diag(sigma)
    r = rand(len(mu))
    res = coeffs * tan(pi * (r - 0.5))
    if not onlyDiagonal:
        res = dot(d, dot(res, u))
    return res + mu
''', '''    if onlyDiagonal:
        coeffs = diag(sigma)
        return mu + coeffs * tan(pi * (rand(len(mu)) - 0.5))
    u, s, d = svd(sigma)
    noise = sqrt(s) * tan(pi * (rand(len(mu)) - 0.5))
    return mu + dot(d, dot(noise, u))
'''), ('''    r = real_if_close(expm(0.5 * logm(M)), 1e-8)
    return (r + r.T) / 2
''', '''    root = real_if_close(expm(logm(M) / 2), 1e-8)
    return 0.5 * (root.T + root)
''')])
edit('tools/customxml/handling.py', [('''        file = open(self.filename, 'w')
        file.write(self.dom.toprettyxml())
        file.close()
''', '''        with open(self.filename, 'w') as out:
            out.write(self.dom.toprettyxml())
'''), ('''            name = str(name)
            if transform != None:
                args[name] = transform(val, name)
            else:
                args[name] = val
        return args
''', '''            key = str(name)
            args[key] = val if transform is None else transform(val, key)
        return args
'''), ('''            if val != None:
                if transform != None:
                    node.setAttribute(name, transform(val, name))
                else:
                    node.setAttribute(name, val)
''', '''            if val is None:
                continue
            if transform is not None:
                val = transform(val, name)
            node.setAttribute(name, val)
'''), ('''        for n in root.childNodes:
            if n.nodeName == name:
                if index == 0:
                    return n
                index -= 1
        return None
''', '''        matching = [n for n in root.childNodes if n.nodeName == name]
        for i, n in enumerate(matching):
            if i == index:
                return n
        return None
'''), ('''        rows = []
        for c in self.getChildrenOf(node):
            rows.append(self.readDoubles(c))
        if len(rows) == 0:
            return None
        res = zeros((len(rows), len(rows[0])))
        for i, r in enumerate(rows):
            res[i] = r
        return res
''', '''        rows = [self.readDoubles(c) for c in self.getChildrenOf(node)]
        if not rows:
            return None
        res = zeros((len(rows), len(rows[0])))
        for i in range(len(rows)):
            res[i] = rows[i]
        return res
''')])
edit('tools/customxml/networkreader.py', [('''        n = nclass(**argdict)
        n.name = node.getAttribute('name')

        for mnode in self.getChildrenOf(self.getChild(node, 'Modules')):
            m, inmodule, outmodule = self.readModule(mnode)
            if inmodule:
                n.addInputModule(m)
            if outmodule:
                n.addOutputModule(m)
            if not inmodule and not outmodule:
                n.addModule(m)
''', '''        n = nclass(**argdict)
        n.name = node.getAttribute('name')
        self._readModules(node, n)
'''), ('''    def readModule(self, mnode):
        if mnode.nodeName == 'Network':
            m = self.readNetwork(mnode)
        else:
            m = self.readBuildable(mnode)
        self.modules[m.name] = m
        inmodule = mnode.hasAttribute('inmodule')
        outmodule = mnode.hasAttribute('outmodule')
        return m, inmodule, outmodule
''', '''    def _readModules(self, node, n):
        for mnode in self.getChildrenOf(self.getChild(node, 'Modules')):
            m, isin, isout = self.readModule(mnode)
            if not (isin or isout):
                n.addModule(m)
                continue
            if isin:
                n.addInputModule(m)
            if isout:
                n.addOutputModule(m)

    def readModule(self, mnode):
        read = self.readNetwork if mnode.nodeName == 'Network' else self.readBuildable
        m = read(mnode)
        self.modules[m.name] = m
        return m, mnode.hasAttribute('inmodule'), mnode.hasAttribute('outmodule')
'''), ('''            val = c.getAttribute('val')
            if val in self.modules:
                res[str(c.nodeName)] = self.modules[val]
            elif val in self.mothers:
                res[str(c.nodeName)] = self.mothers[val]
            elif val != '':
                res[str(c.nodeName)] = eval(val)
        return res
''', '''            val = c.getAttribute('val')
            key = str(c.nodeName)
            if val in self.modules:
                res[key] = self.modules[val]
                continue
            if val in self.mothers:
                res[key] = self.mothers[val]
            elif val != '':
                res[key] = eval(val)
        return res
'''), ('''        r = NetworkReader(filename, newfile = False)
        if name:
            netroot = r.findNamedNode('Network', name)
        else:
            netroot = r.findNode('Network', index)

        return r.readNetwork(netroot)
''', '''        reader = NetworkReader(filename, False)
        if not name:
            return reader.readNetwork(reader.findNode('Network', index))
        return reader.readNetwork(reader.findNamedNode('Network', name))
'''), ('''        c = self.readBuildable(cnode)
        recurrent = cnode.hasAttribute('recurrent')
        return c, recurrent
''', '''        return self.readBuildable(cnode), cnode.hasAttribute('recurrent')
''')])
edit('tools/customxml/networkwriter.py', [('''        w = NetworkWriter(filename, newfile = False)
        netroot = w.newRootNode('Network')
        w.writeNetwork(net, netroot)
        w.save()
''', '''        NetworkWriter._write(NetworkWriter(filename, newfile = False), net)

    @staticmethod
    def _write(w, net):
        w.writeNetwork(net, w.newRootNode('Network'))
        w.save()
'''), ('''        w = NetworkWriter(filename, newfile = True)
        netroot = w.newRootNode('Network')
        w.writeNetwork(net, netroot)
        w.save()
''', '''        NetworkWriter._write(NetworkWriter(filename, newfile = True), net)
'''), ('''            if m not in net.inmodules and m not in net.outmodules:
                self.writeModule(mods, m, False, False)
''', '''            if m in net.inmodules or m in net.outmodules:
                continue
            self.writeModule(mods, m, False, False)
'''), ('''        if len(net.motherconnections) > 0:
            mothers = self.newChild(netroot, 'MotherConnections')
''', '''        if len(net.motherconnections):
            mothers = self.newChild(netroot, 'MotherConnections')
'''), ('''        mname = m.__class__.__name__
        mnode = self.newChild(rootnode, mname)
        mnode.setAttribute('name', m.name)
''', '''        mnode = self.newChild(rootnode, m.__class__.__name__)
        mnode.setAttribute('name', m.name)
'''), ('''            if val != None:
                tmp = self.newChild(node, name)
                if isclass(val):
                    s = canonicClassString(val)
                else:
                    s = getattr(val, 'name', repr(val))
                tmp.setAttribute('val', s)
''', '''            if val is None:
                continue
            child = self.newChild(node, name)
            child.setAttribute('val', self._encode(val))

    def _encode(self, val):
        if isclass(val):
            return canonicClassString(val)
        return getattr(val, 'name', repr(val))
''')])
edit('optimization/hillclimber.py', [('''        if self.evaluatorIsNoisy:
            return 2
        else:
            return 1
''', '''        return 2 if self.evaluatorIsNoisy else 1
'''), ('''        # hill-climbing
        challenger = self.bestEvaluable.copy()
        challenger.mutate()
        newEval = self._oneEvaluation(challenger)

        # if the new evaluation was better, it got stored automatically. Otherwise:
        if ((not self.minimize and newEval < self.bestEvaluation) or
            (self.minimize and newEval > self.bestEvaluation)):
            acceptProbability = exp(-abs(newEval-self.bestEvaluation)/self.temperature)
            if random() < acceptProbability:
                self.bestEvaluable, self.bestEvaluation = challenger, newEval
''', '''        challenger = self.bestEvaluable.copy()
        challenger.mutate()
        newEval = self._oneEvaluation(challenger)
        if self.minimize:
            worse = newEval > self.bestEvaluation
        else:
            worse = newEval < self.bestEvaluation
        if worse:
            drop = abs(self.bestEvaluation - newEval)
            if random() < exp(-drop / self.temperature):
                self.bestEvaluable = challenger
                self.bestEvaluation = newEval
''')])
edit('optimization/finitedifference/fd.py', [('''        deltas = random.uniform(-self.epsilon, self.epsilon, self.numParameters)
        # reduce epsilon by factor gamma
        self.epsilon *= self.gamma
        return deltas
''', '''        eps = self.epsilon
        self.epsilon = eps * self.gamma
        return random.uniform(-eps, eps, self.numParameters)
'''), ('''            deltas = self.perturbation()
            x = self.current + deltas
            D[i, :] = deltas
            R[i, :] = self._oneEvaluation(x)
        beta = dot(pinv(D), R)
        gradient = ravel(beta)

        # update the weights
        self.current = self.gd(gradient)
''', '''            D[i, :] = self.perturbation()
            R[i, :] = self._oneEvaluation(D[i, :] + self.current)
        self.current = self.gd(ravel(dot(pinv(D), R)))
''')])
edit('optimization/finitedifference/pgpe.py', [('''        if self.baseline is None: 
            # first learning step
            self.baseline = self.mreward
            fakt = 0.
            fakt2 = 0.          
        else: 
            #calc the gradients
            if reward1 != reward2:
                #gradient estimate alla SPSA but with likelihood gradient and normalization
                fakt = (reward1 - reward2) / (2. * self.bestEvaluation - reward1 - reward2) 
            else: 
                fakt=0.
            #normalized sigma gradient with moving average baseline
            norm = (self.bestEvaluation-self.baseline)
            if norm != 0.0:
                fakt2=(self.mreward-self.baseline)/(self.bestEvaluation-self.baseline)
            else:
                fakt2 = 0.0
''', '''        fakt = 0.
        fakt2 = 0.
        if self.baseline is None:
            self.baseline = self.mreward
        else:
            if reward1 != reward2:
                fakt = (reward1 - reward2) / (2. * (self.bestEvaluation - self.mreward))
            norm = self.bestEvaluation - self.baseline
            if norm != 0.0:
                fakt2 = (self.mreward - self.baseline) / norm
'''), ('''        self.baseline = 0.9 * self.baseline + 0.1 * self.mreward             
        # update parameters and sigmas
''', '''        self.baseline += 0.1 * (self.mreward - self.baseline)
''')])
edit('optimization/finitedifference/spsa.py', [('''        deltas = (random.randint(0, 2, self.numParameters) * 2 - 1) * self.epsilon
''', '''        signs = 2 * random.randint(0, 2, self.numParameters) - 1
        deltas = self.epsilon * signs
'''), ('''            if reward1 != reward2:
                #gradient estimate alla SPSA but with likelihood gradient and normalization (see also "update parameters")
                fakt = (reward1 - reward2) / (2.0 * self.bestEvaluation - reward1 - reward2)
            else:
                fakt = 0.0
''', '''            fakt = self._factor(reward1, reward2)
'''), ('''    def _learnStep(self):
''', '''    def _factor(self, plus, minus):
        if plus == minus:
            return 0.0
        return (plus - minus) / (2.0 * self.bestEvaluation - plus - minus)

    def _learnStep(self):
''')])

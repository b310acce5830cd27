edit('optimization/populationbased/multiobjective/nsga2.py', [('''            oldfitnesses = self.fitnesses
            self.fitnesses = dict()
            for indiv in self.currentpop:
                if tuple(indiv) in oldfitnesses:
                    self.fitnesses[tuple(indiv)] = oldfitnesses[tuple(indiv)]
                else:
                    self.fitnesses[tuple(indiv)] = self._oneEvaluation(indiv)
            del oldfitnesses
''', '''            known = self.fitnesses
            self.fitnesses = {}
            for indiv in self.currentpop:
                key = tuple(indiv)
                if key not in known:
                    self.fitnesses[key] = self._oneEvaluation(indiv)
                else:
                    self.fitnesses[key] = known[key]
'''), ('''        if self.elitism:
            self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop)),
                                                          key=lambda x: self.fitnesses[x],
                                                          allowequality = self.allowEquality))
        else:
            self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop))+self.bestEvaluable,
                                                          key=lambda x: self.fitnesses[x],
                                                          allowequality = self.allowEquality))
''', '''        candidates = [tuple(indiv) for indiv in self.currentpop]
        if not self.elitism:
            candidates = candidates + self.bestEvaluable
        front = non_dominated_front(candidates,
                                    key=lambda p: self.fitnesses[p],
                                    allowequality=self.allowEquality)
        self.bestEvaluable = list(front)
'''), ('''        return list(map(array, nsga2select(list(map(tuple, self.currentpop)), self.fitnesses,
                                      self.selectionSize, self.allowEquality)))
''', '''        pop = [tuple(indiv) for indiv in self.currentpop]
        chosen = nsga2select(pop, self.fitnesses, self.selectionSize, self.allowEquality)
        return [array(c) for c in chosen]
'''), ('''        remaining = survivors - len(individuals)
        if not remaining > 0:
            break
        if len(front) > remaining:
            crowd_dist = crowding_distance(front, fitnesses)
            front = sorted(front, key=lambda x: crowd_dist[x], reverse=True)
            front = set(front[:remaining])
        individuals |= front
''', '''        remaining = survivors - len(individuals)
        if remaining <= 0:
            break
        if remaining < len(front):
            dist = crowding_distance(front, fitnesses)
            byDistance = sorted(front, key=lambda p: dist[p], reverse=True)
            individuals |= set(byDistance[:remaining])
        else:
            individuals |= front
''')])
edit('optimization/populationbased/coevolution/coevolution.py', [('''        if maxSteps != None:
            maxSteps += self.steps
        while True:
            if maxSteps != None and self.steps + self._stepsPerGeneration() > maxSteps:
                break
            if self.maxEvaluations != None and self.steps + self._stepsPerGeneration() > self.maxEvaluations:
                break
            if self.maxGenerations != None and self.generation >= self.maxGenerations:
                break
            self._oneGeneration()
        return self.hallOfFame[-1]
''', '''        if maxSteps is not None:
            maxSteps = self.steps + maxSteps
        while not self._finished(maxSteps):
            self._oneGeneration()
        return self.hallOfFame[-1]

    def _finished(self, maxSteps):
        after = self.steps + self._stepsPerGeneration()
        if maxSteps is not None and after > maxSteps:
            return True
        if self.maxEvaluations is not None and after > self.maxEvaluations:
            return True
        return self.maxGenerations is not None and self.generation >= self.maxGenerations
'''), ('''        for i, p in enumerate(pop[:]):
            if p.parent != None:
                tmp = p.copy()
                tmp.parent = p.parent
                tmp._setParameters(p.params * childportion + p.parent.params * (1 - childportion))
                pop[i] = tmp
''', '''        for i, p in enumerate(pop[:]):
            if p.parent is None:
                continue
            averaged = p.copy()
            averaged.parent = p.parent
            mixed = childportion * p.params + (1 - childportion) * p.parent.params
            averaged._setParameters(mixed)
            pop[i] = averaged
'''), ('''            fit = 0
            for opp in opponents:
                fit += self._beats(p, opp)
            if hoFtournSize > 0:
                for opp in hoF:
                    fit += self._beats(p, opp)
            if self.absEvalProportion''', '''            fit = sum([self._beats(p, opp) for opp in opponents])
            if hoFtournSize > 0:
                fit += sum([self._beats(p, opp) for opp in hoF])
            if self.absEvalProportion'''), ('''        res = seeds[:]
        for dummy in range(size - len(seeds)):
            chosen = choice(seeds)
            tmp = chosen.copy()
            tmp.mutate()
            if self.parentChildAverage < 1:
                tmp.parent = chosen
            res.append(tmp)
        return res
''', '''        res = list(seeds)
        for _ in range(size - len(seeds)):
            parent = choice(seeds)
            child = parent.copy()
            child.mutate()
            if self.parentChildAverage < 1:
                child.parent = parent
            res.append(child)
        return res
'''), ('''        if self.elitism:
            newpop = self._extendPopulation(selected, self.populationSize)
            if self.parentChildAverage < 1:
                self._averageWithParents(newpop, self.parentChildAverage)
        else:
            newpop = self._extendPopulation(selected, self.populationSize
                                            + self._numSelected()) [self._numSelected():]
            if self.parentChildAverage < 1:
                self._averageWithParents(newpop, self.parentChildAverage)
        return newpop
''', '''        if self.elitism:
            newpop = self._extendPopulation(selected, self.populationSize)
        else:
            n = self._numSelected()
            newpop = self._extendPopulation(selected, n + self.populationSize)[n:]
        if self.parentChildAverage < 1:
            self._averageWithParents(newpop, self.parentChildAverage)
        return newpop
'''), ('''        if (h, p) not in self.allResults:
            return 0
        else:
            hpgames, hscore = self.allResults[(h, p)][1:3]
            phgames, pscore = self.allResults[(p, h)][1:3]
            return (hscore - pscore) / float(hpgames + phgames)
''', '''        if (h, p) in self.allResults:
            there = self.allResults[(h, p)]
            back = self.allResults[(p, h)]
            return (there[2] - back[2]) / float(there[1] + back[1])
        return 0
'''), ('''            pop3 = pop2[:]
            while p in pop3:
                pop3.remove(p)
            if tournamentSize != None and tournamentSize < len(pop3):
                opps = sample(pop3, tournamentSize)
            else:
                opps = pop3
            for opp in opps:
''', '''            opps = [x for x in pop2 if x != p]
            if tournamentSize is not None and tournamentSize < len(opps):
                opps = sample(opps, tournamentSize)
            for opp in opps:
'''), ('''            scoresum += self.allResults[(p, opp)][2]
            played += self.allResults[(p, opp)][1]
            scoresum -= self.allResults[(opp, p)][2]
            played += self.allResults[(opp, p)][1]
        played += 0.01
        return scoresum / played
''', '''            there = self.allResults[(p, opp)]
            back = self.allResults[(opp, p)]
            scoresum += there[2] - back[2]
            played += there[1] + back[1]
        return scoresum / (played + 0.01)
'''), ('''            beaten = []
            for opp in relativeTo:
                if self._beats(p, opp) > 0:
                    beaten.append(opp)
            tmp[p] = beaten
''', '''            tmp[p] = [opp for opp in relativeTo if self._beats(p, opp) > 0]
'''), ('''        if p not in self.allOpponents:
            self.allOpponents[p] = []
        self.allOpponents[p].append(opp)
        if (p, opp) not in self.allResults:
            self.allResults[(p, opp)] = [0, 0, 0., []]
        res = self.relEvaluator(p, opp)
        if res > 0:
            self.allResults[(p, opp)][0] += 1
        self.allResults[(p, opp)][1] += 1
        self.allResults[(p, opp)][2] += res
        self.allResults[(p, opp)][3].append(res)
        self.steps += 1
''', '''        self.allOpponents.setdefault(p, []).append(opp)
        record = self.allResults.setdefault((p, opp), [0, 0, 0., []])
        res = self.relEvaluator(p, opp)
        if res > 0:
            record[0] += 1
        record[1] += 1
        record[2] += res
        record[3].append(res)
        self.steps += 1
'''), ('''        res = self.populationSize * self.tournamentSize * 2
        return res
''', '''        return 2 * self.populationSize * self.tournamentSize
''')])
edit('optimization/populationbased/coevolution/competitivecoevolution.py', [('''        if len(seeds) > 1:
            s1 = seeds[:len(seeds) // 2]
            s2 = seeds[len(seeds) // 2:]
        else:
''', '''        half = len(seeds) // 2
        if len(seeds) > 1:
            s1, s2 = seeds[:half], seeds[half:]
        else:
'''), ('''        beatsums = {}
        for p in parasites:
            beatsums[p] = 0.
            for h in hosts:
                if self._beats(h, p) > 0:
                    beatsums[p] += 1
''', '''        beatsums = {}
        for p in parasites:
            count = 0.
            for h in hosts:
                if self._beats(h, p) > 0:
                    count += 1
            beatsums[p] = count
'''), ('''                if self._beats(h, p) > 0:
                    assert beatsums[p] > 0
                    hsum += 1. / beatsums[p]
                elif self._beats(h, p) == 0:
                    unplayed += 1
''', '''                score = self._beats(h, p)
                if score > 0:
                    assert beatsums[p] > 0
                    hsum += 1. / beatsums[p]
                elif score == 0:
                    unplayed += 1
'''), ('''        Coevolution._oneGeneration(self)
        tmp = self.pop
        self.pop = self.parasitePop
        self.parasitePop = tmp
''', '''        Coevolution._oneGeneration(self)
        self.pop, self.parasitePop = self.parasitePop, self.pop
'''), ('''            fit = [tournSize * f1_f2[0] + hoFtournSize * f1_f2[1] for f1_f2 in zip(fit, fitHof)]
''', '''            fit = [tournSize * f + hoFtournSize * g for f, g in zip(fit, fitHof)]
''')])
edit('optimization/populationbased/ga.py', [('''        self.mins = array([min_ for min_, max_ in self.xBound])
        self.maxs = array([max_ for min_, max_ in self.xBound])
''', '''        self.mins = array([bound[0] for bound in self.xBound])
        self.maxs = array([bound[1] for bound in self.xBound])
'''), ('''        for i in range(len(parents)//2):
            p1 = parents[i]
            p2 = parents[i+(len(parents)//2)]
''', '''        half = len(parents) // 2
        for i in range(half):
            p1, p2 = parents[i], parents[half + i]
'''), ('''                point = choice(list(range(xdim-1)))
                point += 1
                res = zeros(xdim)
                res[:point] = p1[:point]
                res[point:] = p2[point:]
                children.append(res)
                res = zeros(xdim)
                res[:point] = p2[:point]
                res[point:] = p1[point:]
                children.append(res)
''', '''                point = choice(list(range(xdim-1))) + 1
                children.append(self._joined(p1, p2, point))
                children.append(self._joined(p2, p1, point))
'''), ('''    def childexist(self,indiv,pop):
''', '''    def _joined(self, head, tail, point):
        res = zeros(self.numParameters)
        res[:point] = head[:point]
        res[point:] = tail[point:]
        return res

    def childexist(self,indiv,pop):
'''), ('''            if random() < self.mutationProb:
                if self.xBound is None:
                    res[i] = indiv[i] + gauss(0, self.mutationStdDev)
                else:
                    res[i] = max(min(indiv[i] + gauss(0, self.mutationStdDev),self.maxs[i]),
                             self.mins[i])
        return res

    def old''', '''            if random() >= self.mutationProb:
                continue
            value = indiv[i] + gauss(0, self.mutationStdDev)
            if self.xBound is not None:
                value = max(min(value, self.maxs[i]), self.mins[i])
            res[i] = value
        return res

    def old'''), ('''        if self.elitism:
            if self._eliteSize != None:
                return self._eliteSize
            else:
                return int(self.populationSize * self.eliteProportion)
        else:
            return 0
''', '''        if not self.elitism:
            return 0
        if self._eliteSize is not None:
            return self._eliteSize
        return int(self.eliteProportion * self.populationSize)
'''), ('''        if not self.tournament:
            tmp = list(zip(self.fitnesses, self.currentpop))
            tmp.sort(key = lambda x: x[0])
            tmp2 = list(reversed(tmp))[:self.selectionSize]
            return [x[1] for x in tmp2]
        else:
            raise NotImplementedError()
''', '''        if self.tournament:
            raise NotImplementedError()
        ranked = sorted(zip(self.fitnesses, self.currentpop), key=lambda pair: pair[0])
        return [indiv for _, indiv in ranked[::-1][:self.selectionSize]]
'''), ('''        nbchildren = self.populationSize - es
        if self.populationSize - es <= 0:
            nbchildren = len(parents)
        for child in self.crossOver(parents, nbchildren ):
            self.currentpop.append(self.mutated(child))
''', '''        missing = self.populationSize - es
        nbchildren = missing if missing > 0 else len(parents)
        self.currentpop.extend([self.mutated(child) for child in self.crossOver(parents, nbchildren)])
''')])
edit('utilities.py', [('''        m = max(vals)
        best = []
        for i, v in enumerate(vals):
            if v == m:
                best.append(i)
        return choice(best)
    else:
        temp = vals / temperature
''', '''        m = max(vals)
        return choice([i for i, v in enumerate(vals) if v == m])
    else:
        temp = vals / temperature
'''), ('''        if min(temp) < -20:
            for i, v in enumerate(temp):
                if v < -20:
                    temp[i] = -20
        temp = exp(temp)
        temp /= sum(temp)
        return drawIndex(temp)
''', '''        if min(temp) < -20:
            for i in range(len(temp)):
                temp[i] = max(temp[i], -20)
        weights = exp(temp)
        return drawIndex(weights / sum(weights))
'''), ('''    for n in list(argdict.keys()):
        if hasattr(obj, n):
            setattr(obj, n, argdict[n])
            if xmlstore:
                obj.argdict[n] = argdict[n]
        else:
''', '''    for n, value in list(argdict.items()):
        if hasattr(obj, n):
            setattr(obj, n, value)
            if xmlstore:
                obj.argdict[n] = value
        else:
'''), ('''    arrout = array(out).flatten()
    wrong = where(arrout != array(true).flatten())[0].size
    return 100. * float(wrong) / float(arrout.size)
''', '''    given = array(out).flatten()
    expected = array(true).flatten()
    wrong = where(given != expected)[0].size
    return float(wrong) / float(given.size) * 100.
'''), ('''    if not ext:
        return None
    try:
        format = known_extensions[ext.replace('.', '')]
    except KeyError:
        format = None
    return format
''', '''    if not ext:
        return None
    return known_extensions.get(ext.replace('.', ''))
'''), ('''        format = 'pickle' if format is None else format
        save = getattr(self, "save_%s" % format, None)
        if save is None:
''', '''        if format is None:
            format = 'pickle'
        save = getattr(self, "save_%s" % format, None)
        if save is None:
'''), ('''        if self._name is None:
            self._name = self._generateName()
        return self._name
''', '''        if self._name is not None:
            return self._name
        self._name = self._generateName()
        return self._name
'''), ('''    l = list(tup)
    return tuple(l[:index] + l[index + 1:])
''', '''    kept = list(tup)
    return tuple(kept[:index]) + tuple(kept[index + 1:])
'''), ('''    for i in reversed(list(range(size))):
        gi = (g >> i) % 2
        if i == size - 1:
            bi = gi
        else:
            bi = bi ^ gi
        res += bi * 2 ** i
    return res
''', '''    bi = 0
    for i in range(size - 1, -1, -1):
        gi = (g >> i) % 2
        bi = gi if i == size - 1 else bi ^ gi
        res += bi * 2 ** i
    return res
'''), ('''    if i > 1:
        if i % 2 == 1:
            return asBinary(i >> 1) + '1'
        else:
            return asBinary(i >> 1) + '0'
    else:
        return str(i)
''', '''    if i <= 1:
        return str(i)
    last = '1' if i % 2 == 1 else '0'
    return asBinary(i >> 1) + last
'''), ('''    res = []
    for i, x in enumerate(tup):
        if x > 0:
            res.append(tuple(list(tup[:i]) + [x - 1] + list(tup[i + 1:])))
    return res
''', '''    return [tuple(list(tup[:i]) + [x - 1] + list(tup[i + 1:]))
            for i, x in enumerate(tup) if x > 0]
'''), ('''            if fullSet is None:
                new.update(stepFunction(m))
            else:
                new.update(full.intersection(stepFunction(m)))
        change = new.difference(flooded)
        flooded.update(change)
''', '''            reached = stepFunction(m)
            if fullSet is not None:
                reached = full.intersection(reached)
            new.update(reached)
        change = new - flooded
        flooded |= change
'''), ('''    if len(ss) > 1:
        return reduce(operator.add,
                      [crossproduct(ss[1:], row + [i], level + 1) for i in ss[0]])
    else:
        return [row + [i] for i in ss[0]]
''', '''    if len(ss) <= 1:
        return [row + [i] for i in ss[0]]
    parts = [crossproduct(ss[1:], row + [i], level + 1) for i in ss[0]]
    return reduce(operator.add, parts)
'''), ('''    dim = m.shape[0]
    res = zeros(dim * (dim + 1) // 2)
    index = 0
    for row in range(dim):
        res[index:index + dim - row] = m[row, row:]
        index += dim - row
    return res
''', '''    dim = m.shape[0]
    res = zeros((dim + 1) * dim // 2)
    start = 0
    for row in range(dim):
        end = start + dim - row
        res[start:end] = m[row, row:]
        start = end
    return res
'''), ('''    for i in range(len(l)):
        d = dims[i]
        m = l[i]
        res[index:index + d, index:index + d] = m
        index += d
    return res
''', '''    for m, d in zip(l, dims):
        end = index + d
        res[index:end, index:end] = m
        index = end
    return res
''')])

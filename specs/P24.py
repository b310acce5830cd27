

@target('pybrain.tools.nondominated.crowding_distance')
def crowding_distance(individuals, fitnesses):
    distances = collections.defaultdict(lambda: 0)
    individuals = list(individuals)
    n_obj = len(fitnesses[individuals[0]])
    for i in range(n_obj):
        individuals.sort(key=lambda x: fitnesses[x][i])
        normalization = float(fitnesses[individuals[0]][i] - fitnesses[individuals[-1]][i])
        distances[individuals[0]] = 1e+100
        distances[individuals[-1]] = 1e+100
        if normalization == 0:
            continue
        tripled = list(zip(individuals, individuals[1:-1], individuals[2:]))
        for pre, ind, post in tripled:
            distances[ind] += (fitnesses[pre][i] - fitnesses[post][i]) / normalization
    return distances


@target('pybrain.tools.nondominated._non_dominated_front_old')
def _non_dominated_front_old(iterable, key=lambda x: x, allowequality=True):
    items = list(iterable)
    keys = dict(((i, key(i)) for i in items))
    dim = len(list(keys.values())[0])
    if any((dim != len(k) for k in list(keys.values()))):
        raise ValueError('Wrong tuple size.')
    dominations = collections.defaultdict(lambda: [])
    for i in items:
        for j in items:
            if allowequality:
                if all((keys[i][k] < keys[j][k] for k in range(dim))):
                    dominations[i].append(j)
            elif all((keys[i][k] <= keys[j][k] for k in range(dim))):
                dominations[i].append(j)
    dominates = lambda i, j: j in dominations[i]
    res = set()
    items = set(items)
    for i in items:
        res.add(i)
        for j in list(res):
            if i is j:
                continue
            if dominates(j, i):
                res.remove(i)
                break
            elif dominates(i, j):
                res.remove(j)
    return res


@target('pybrain.tools.nondominated._non_dominated_front_fast')
def _non_dominated_front_fast(iterable, key=lambda x: x, allowequality=True):
    items = list(iterable)
    keys = dict(((i, key(i)) for i in items))
    dim = len(list(keys.values())[0])
    dominations = {}
    for i in items:
        for j in items:
            good = True
            if allowequality:
                for k in range(dim):
                    if keys[i][k] >= keys[j][k]:
                        good = False
                        break
            else:
                for k in range(dim):
                    if keys[i][k] > keys[j][k]:
                        good = False
                        break
            if good:
                dominations[i, j] = None
    res = set()
    items = set(items)
    for i in items:
        res.add(i)
        for j in list(res):
            if i is j:
                continue
            if (j, i) in dominations:
                res.remove(i)
                break
            elif (i, j) in dominations:
                res.remove(j)
    return res


@target('pybrain.tools.nondominated._non_dominated_front_merge')
def _non_dominated_front_merge(iterable, key=lambda x: x, allowequality=True):
    items = list(iterable)
    l = len(items)
    if l > 20:
        part1 = list(_non_dominated_front_merge(items[:l // 2], key, allowequality))
        part2 = list(_non_dominated_front_merge(items[l // 2:], key, allowequality))
        if len(part1) >= l // 3 or len(part2) >= l // 3:
            return _non_dominated_front_fast(part1 + part2, key, allowequality)
        else:
            return _non_dominated_front_merge(part1 + part2, key, allowequality)
    else:
        return _non_dominated_front_fast(items, key, allowequality)


@target('pybrain.tools.nondominated._non_dominated_front_arr')
def _non_dominated_front_arr(iterable, key=lambda x: x, allowequality=True):
    items = list(iterable)
    fits = list(map(key, items))
    l = len(items)
    x = array(fits)
    a = tile(x, (l, 1, 1))
    b = a.transpose((1, 0, 2))
    if allowequality:
        ndom = sum(a <= b, axis=2)
    else:
        ndom = sum(a < b, axis=2)
    ndom = array(ndom, dtype=bool)
    res = set()
    for ii in range(l):
        res.add(ii)
        for ij in list(res):
            if ii == ij:
                continue
            if not ndom[ij, ii]:
                res.remove(ii)
                break
            elif not ndom[ii, ij]:
                res.remove(ij)
    return set([items[i] for i in res])


@target('pybrain.tools.nondominated._non_dominated_front_merge_arr')
@events('_non_dominated_front_arr', '_const_non_dominated_front_arr')
def _non_dominated_front_merge_arr(iterable, key=lambda x: x, allowequality=True):
    items = list(iterable)
    l = len(items)
    if l > 100:
        part1 = list(_non_dominated_front_merge_arr(items[:l // 2], key, allowequality))
        part2 = list(_non_dominated_front_merge_arr(items[l // 2:], key, allowequality))
        if len(part1) >= l // 3 or len(part2) >= l // 3:
            return _non_dominated_front_arr(part1 + part2, key, allowequality)
        else:
            return _non_dominated_front_merge_arr(part1 + part2, key, allowequality)
    else:
        return _non_dominated_front_arr(items, key, allowequality)


@target('pybrain.tools.nondominated.non_dominated_sort')
@events('_non_dominated_front_merge_arr', '_const_non_dominated_front_merge_arr')
def non_dominated_sort(iterable, key=lambda x: x, allowequality=True):
    items = set(iterable)
    fronts = []
    while items:
        front = non_dominated_front(items, key, allowequality)
        items -= front
        fronts.append(front)
    return fronts


@target('pybrain.tools.nondominated._const_non_dominated_front_merge_arr')
@events('_non_dominated_front_arr', '_const_non_dominated_front_arr')
def _const_non_dominated_front_merge_arr(iterable, key=lambda x: x, allowequality=True):
    items = list(iterable)
    l = len(items)
    if l > 100:
        part1 = list(_const_non_dominated_front_merge_arr(items[:l // 2], key, allowequality))
        part2 = list(_const_non_dominated_front_merge_arr(items[l // 2:], key, allowequality))
        if len(part1) >= l // 3 or len(part2) >= l // 3:
            return _const_non_dominated_front_arr(part1 + part2, key, allowequality)
        else:
            return _const_non_dominated_front_merge_arr(part1 + part2, key, allowequality)
    else:
        return _const_non_dominated_front_arr(items, key, allowequality)


@target('pybrain.tools.nondominated._const_non_dominated_front_arr')
def _const_non_dominated_front_arr(iterable, key=lambda x: x, allowequality=True):
    items = list(iterable)
    fits = list(map(key, items))
    x = array([fits[i][0] for i in range(len(fits))])
    v = array([fits[i][1] for i in range(len(fits))])
    c = array([fits[i][2] for i in range(len(fits))])
    l = len(items)
    a = tile(x, (l, 1, 1))
    b = a.transpose((1, 0, 2))
    if allowequality:
        ndom = sum(a <= b, axis=2)
    else:
        ndom = sum(a < b, axis=2)
    ndom = array(ndom, dtype=bool)
    res = set()
    for ii in range(l):
        res.add(ii)
        for ij in list(res):
            if ii == ij:
                continue
            if not ndom[ij, ii] and v[ij] and v[ii]:
                res.remove(ii)
                break
            elif not ndom[ii, ij] and v[ij] and v[ii]:
                res.remove(ij)
            elif v[ij] and (not v[ii]):
                res.remove(ii)
                break
            elif v[ii] and (not v[ij]):
                res.remove(ij)
            elif not v[ii] and (not v[ij]):
                cii = abs(sum(c[ii]))
                cij = abs(sum(c[ij]))
                if cii < cij:
                    res.remove(ij)
                else:
                    res.remove(ii)
                    break
    return set([items[i] for i in res])


@target('pybrain.tools.nondominated.const_non_dominated_sort')
@events('_non_dominated_front_merge_arr', '_const_non_dominated_front_merge_arr')
def const_non_dominated_sort(iterable, key=lambda x: x, allowequality=True):
    items = set(iterable)
    fronts = []
    while items:
        front = const_non_dominated_front(items, key, allowequality)
        items -= front
        fronts.append(front)
    return fronts


@target('pybrain.tools.nondominated.const_crowding_distance')
def const_crowding_distance(individuals, fitnesses):
    distances = collections.defaultdict(lambda: 0)
    individuals = list(individuals)
    n_obj = len(fitnesses[individuals[0]][0])
    for i in range(n_obj):
        individuals.sort(key=lambda x: fitnesses[x][0][i])
        normalization = float(fitnesses[individuals[0]][0][i] - fitnesses[individuals[-1]][0][i])
        distances[individuals[0]] = 1e+100
        distances[individuals[-1]] = 1e+100
        if normalization == 0:
            continue
        tripled = list(zip(individuals, individuals[1:-1], individuals[2:]))
        for pre, ind, post in tripled:
            distances[ind] += (fitnesses[pre][0][i] - fitnesses[post][0][i]) / normalization
    return distances


@target('pybrain.tools.nondominated.const_number_of_feasible_pop')
def const_number_of_feasible_pop(iterable, key=lambda x: x, allowequality=True):
    items = list(iterable)
    fits = list(map(key, items))
    v = list([fits[i][1] for i in range(len(fits))])
    n = v.count(True)
    return n


@target('pybrain.optimization.populationbased.multiobjective.nsga2.nsga2select')
def nsga2select(population, fitnesses, survivors, allowequality=True):
    fronts = non_dominated_sort(population, key=lambda x: fitnesses[x], allowequality=allowequality)
    individuals = set()
    for front in fronts:
        remaining = survivors - len(individuals)
        if not remaining > 0:
            break
        if len(front) > remaining:
            crowd_dist = crowding_distance(front, fitnesses)
            front = sorted(front, key=lambda x: crowd_dist[x], reverse=True)
            front = set(front[:remaining])
        individuals |= front
    return list(individuals)


@target('pybrain.optimization.populationbased.multiobjective.nsga2.MultiObjectiveGA')
@events('_oneEvaluation', 'produceOffspring', '_non_dominated_front_merge_arr', '_const_non_dominated_front_merge_arr')
class MultiObjectiveGA:
    def _learnStep(self):
        """ added by JPQ """
        if isinstance(self.fitnesses, dict):
            oldfitnesses = self.fitnesses
            self.fitnesses = dict()
            for indiv in self.currentpop:
                if tuple(indiv) in oldfitnesses:
                    self.fitnesses[tuple(indiv)] = oldfitnesses[tuple(indiv)]
                else:
                    self.fitnesses[tuple(indiv)] = self._oneEvaluation(indiv)
            del oldfitnesses
        else:
            self.fitnesses = dict([(tuple(indiv), self._oneEvaluation(indiv)) for indiv in self.currentpop])
        if self.storeAllPopulations:
            self._allGenerations.append((self.currentpop, self.fitnesses))
        if self.elitism:
            self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop)), key=lambda x: self.fitnesses[x], allowequality=self.allowEquality))
        else:
            self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop)) + self.bestEvaluable, key=lambda x: self.fitnesses[x], allowequality=self.allowEquality))
        self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
        self.produceOffspring()

    def select(self):
        return list(map(array, nsga2select(list(map(tuple, self.currentpop)), self.fitnesses, self.selectionSize, self.allowEquality)))


@target('pybrain.optimization.populationbased.multiobjective.constnsga2.nsga2select')
def nsga2select(population, fitnesses, survivors, allowequality=True):
    fronts = const_non_dominated_sort(population, key=lambda x: fitnesses[x], allowequality=allowequality)
    individuals = set()
    for front in fronts:
        remaining = survivors - len(individuals)
        if not remaining > 0:
            break
        if len(front) > remaining:
            crowd_dist = const_crowding_distance(front, fitnesses)
            front = sorted(front, key=lambda x: crowd_dist[x], reverse=True)
            front = set(front[:remaining])
        individuals |= front
    return list(individuals)


@target('pybrain.optimization.populationbased.multiobjective.constnsga2.ConstMultiObjectiveGA')
@events('_oneEvaluation', 'produceOffspring', '_non_dominated_front_merge_arr', '_const_non_dominated_front_merge_arr')
class ConstMultiObjectiveGA:
    def _learnStep(self):
        if isinstance(self.fitnesses, dict):
            oldfitnesses = self.fitnesses
            self.fitnesses = dict()
            for indiv in self.currentpop:
                if tuple(indiv) in oldfitnesses:
                    self.fitnesses[tuple(indiv)] = oldfitnesses[tuple(indiv)]
                else:
                    self.fitnesses[tuple(indiv)] = self._oneEvaluation(indiv)
            del oldfitnesses
        else:
            self.fitnesses = dict([(tuple(indiv), self._oneEvaluation(indiv)) for indiv in self.currentpop])
        if self.storeAllPopulations:
            self._allGenerations.append((self.currentpop, self.fitnesses))
        if self.elitism:
            self.bestEvaluable = list(const_non_dominated_front(list(map(tuple, self.currentpop)), key=lambda x: self.fitnesses[x], allowequality=self.allowEquality))
        else:
            self.bestEvaluable = list(const_non_dominated_front(list(map(tuple, self.currentpop)) + self.bestEvaluable, key=lambda x: self.fitnesses[x], allowequality=self.allowEquality))
        self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
        self.produceOffspring()

    def select(self):
        return list(map(array, nsga2select(list(map(tuple, self.currentpop)), self.fitnesses, self.selectionSize, self.allowEquality)))

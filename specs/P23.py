

@target('pybrain.optimization.populationbased.es.ES')
class ES:
    def _additionalInit(self):
        assert self.lambada % self.mu == 0, 'lambda (' + str(self.lambada) + ') must be multiple of mu (' + str(self.mu) + ').'
        self.hallOfFame = []
        self.population = [(self._oneEvaluation(self._initEvaluable), self._initEvaluable)] * self._popsize
        list(map(self._replaceByMutation, list(range(1, self._popsize))))
        self._sortPopulation()

    def _popsize(self):
        if self.elitism:
            return self.mu + self.lambada
        else:
            return self.lambada

    def _replaceByMutation(self, index):
        x = self.population[index][1].copy()
        x.mutate()
        self.population[index] = (self._oneEvaluation(x), x)

    def _learnStep(self):
        if self.evaluatorIsNoisy:
            for i in range(self.mu):
                x = self.population[i][1]
                self.population[i] = (self._oneEvaluation(x), x)
            self._sortPopulation(noHallOfFame=True)
        self.population = self.population[:self.mu] * (self._popsize // self.mu)
        if self.elitism:
            list(map(self._replaceByMutation, list(range(self.mu, self._popsize))))
        else:
            list(map(self._replaceByMutation, list(range(self._popsize))))
        self._sortPopulation()

    def _sortPopulation(self, noHallOfFame=False):
        shuffle(self.population)
        self.population.sort(key=lambda x: -x[0])
        if self.storeHallOfFame and (not noHallOfFame):
            self.hallOfFame.append(self.population[0][1])


@target('pybrain.optimization.populationbased.evolution.Evolution')
class Evolution:
    def _additionalInit(self):
        self.currentpop = []
        self.fitnesses = []
        self._allGenerations = []
        self.initPopulation()

    def _learnStep(self):
        self.fitnesses = [self._oneEvaluation(indiv) for indiv in self.currentpop]
        if self.storeAllPopulations:
            self._allGenerations.append((self.currentpop, self.fitnesses))
        self.produceOffspring()


@target('pybrain.optimization.populationbased.ga.GA')
class GA:
    def initBoundaries(self):
        assert len(self.xBound) == self.numParameters
        self.mins = array([min_ for min_, max_ in self.xBound])
        self.maxs = array([max_ for min_, max_ in self.xBound])

    def initPopulation(self):
        if self.xBound is not None:
            self.initBoundaries()
        if self.initialPopulation is not None:
            self.currentpop = self.initialPopulation
        else:
            self.currentpop = [self._initEvaluable]
            for _ in range(self.populationSize - 1):
                'added by JPQ '
                if self.xBound is None:
                    self.currentpop.append(self._initEvaluable + randn(self.numParameters) * self.mutationStdDev * self.initRangeScaling)
                    'added by JPQ '
                else:
                    position = rd.random(self.numParameters)
                    position *= self.maxs - self.mins
                    position += self.mins
                    self.currentpop.append(position)

    def crossOver(self, parents, nbChildren):
        """ change as the <choice> return quite often the same p1 and even
                several time p2 was return the same than p1 """
        xdim = self.numParameters
        shuffle(parents)
        children = []
        for i in range(len(parents) // 2):
            p1 = parents[i]
            p2 = parents[i + len(parents) // 2]
            if xdim < 2:
                children.append(p1)
                children.append(p2)
            else:
                point = choice(list(range(xdim - 1)))
                point += 1
                res = zeros(xdim)
                res[:point] = p1[:point]
                res[point:] = p2[point:]
                children.append(res)
                res = zeros(xdim)
                res[:point] = p2[:point]
                res[point:] = p1[point:]
                children.append(res)
        shuffle(children)
        if len(children) > nbChildren:
            children = children[:nbChildren]
        else:
            while len(children) < nbChildren:
                children += sample(children, 1)
        return children

    def crossOverOld(self, parents, nbChildren):
        xdim = self.numParameters
        children = []
        for _ in range(nbChildren):
            p1 = choice(parents)
            if xdim < 2:
                children.append(p1)
            else:
                p2 = choice(parents)
                point = choice(list(range(xdim - 1)))
                point += 1
                res = zeros(xdim)
                res[:point] = p1[:point]
                res[point:] = p2[point:]
                children.append(res)
        return children

    def mutated(self, indiv):
        res = indiv.copy()
        for i in range(self.numParameters):
            if random() < self.mutationProb:
                if self.xBound is None:
                    res[i] = indiv[i] + gauss(0, self.mutationStdDev)
                else:
                    res[i] = max(min(indiv[i] + gauss(0, self.mutationStdDev), self.maxs[i]), self.mins[i])
        return res

    def mutatedOld(self, indiv):
        res = indiv.copy()
        for i in range(self.numParameters):
            if random() < self.mutationProb:
                res[i] = indiv[i] + gauss(0, self.mutationStdDev)
        return res

    def childexist(self, indiv, pop):
        if isinstance(pop, list):
            for i in range(len(pop)):
                if all((abs(indiv[k] - pop[i][k]) / (self.maxs[k] - self.mins[k]) < 1e-07 for k in range(self.numParameters))):
                    return True
        return False

    def selectionSize(self):
        return int(self.populationSize * self.topProportion)

    def eliteSize(self):
        if self.elitism:
            if self._eliteSize != None:
                return self._eliteSize
            else:
                return int(self.populationSize * self.eliteProportion)
        else:
            return 0

    def select(self):
        if not self.tournament:
            tmp = list(zip(self.fitnesses, self.currentpop))
            tmp.sort(key=lambda x: x[0])
            tmp2 = list(reversed(tmp))[:self.selectionSize]
            return [x[1] for x in tmp2]
        else:
            raise NotImplementedError()

    @events('select','crossOver','mutated','eliteSize','selectionSize')
    def produceOffspring(self):
        parents = self.select()
        es = min(self.eliteSize, self.selectionSize)
        self.currentpop = parents[:es]
        'Modified by JPQ '
        nbchildren = self.populationSize - es
        if self.populationSize - es <= 0:
            nbchildren = len(parents)
        for child in self.crossOver(parents, nbchildren):
            self.currentpop.append(self.mutated(child))


@target('pybrain.optimization.populationbased.pso.fullyConnected')
def fullyConnected(lst):
    return dict(((i, lst) for i in lst))


@target('pybrain.optimization.populationbased.pso.ring')
def ring(lst):
    leftist = lst[1:] + lst[0:1]
    rightist = lst[-1:] + lst[:-1]
    return dict(((i, (j, k)) for i, j, k in zip(lst, leftist, rightist)))


@target('pybrain.optimization.populationbased.pso.ParticleSwarmOptimizer')
class ParticleSwarmOptimizer:
    def _additionalInit(self):
        self.dim = self.numParameters
        if self.neighbourfunction is None:
            self.neighbourfunction = fullyConnected
        if self.boundaries is None:
            maxs = scipy.array([10] * self.dim)
            mins = scipy.array([-10] * self.dim)
        else:
            mins = scipy.array([min_ for min_, max_ in self.boundaries])
            maxs = scipy.array([max_ for min_, max_ in self.boundaries])
        self.particles = []
        for _ in range(self.size):
            startingPosition = scipy.random.random(self.dim)
            startingPosition *= maxs - mins
            startingPosition += mins
            self.particles.append(Particle(startingPosition, self.minimize))
        self.neighbours = self.neighbourfunction(self.particles)

    def _learnStep(self):
        for particle in self.particles:
            particle.fitness = self._oneEvaluation(particle.position.copy())
        for particle in self.particles:
            bestPosition = self.best(self.neighbours[particle]).position
            diff_social = self.sociality * scipy.random.random() * (bestPosition - particle.position)
            diff_memory = self.memory * scipy.random.random() * (particle.bestPosition - particle.position)
            particle.velocity *= self.inertia
            particle.velocity += diff_memory + diff_social
            particle.move()

    def best(self, particlelist):
        picker = min if self.minimize else max
        return picker(particlelist, key=lambda p: p.fitness)


@target('pybrain.optimization.populationbased.pso.Particle')
class Particle:
    def __init__(self, start, minimize):
        self.minimize = minimize
        self.dim = scipy.size(start)
        self.position = start
        self.velocity = scipy.zeros(scipy.size(start))
        self.bestPosition = scipy.zeros(scipy.size(start))
        self._fitness = None
        if self.minimize:
            self.bestFitness = scipy.inf
        else:
            self.bestFitness = -scipy.inf

    def _setFitness(self, value):
        self._fitness = value
        if self.minimize and value < self.bestFitness or (not self.minimize and value > self.bestFitness):
            self.bestFitness = value
            self.bestPosition = self.position.copy()

    def _getFitness(self):
        return self._fitness

    def move(self):
        self.position += self.velocity

    def _getFitness(self):
        return self._fitness


@target('pybrain.optimization.memetic.memetic.MemeticSearch')
class MemeticSearch:
    def switchMutations(self):
        tm = self._initEvaluable.__class__.topologyMutate
        m = self._initEvaluable.__class__.mutate
        self._initEvaluable.__class__.topologyMutate = m
        self._initEvaluable.__class__.mutate = tm

    def _oneEvaluation(self, evaluable):
        if self.numEvaluations == 0:
            return BlackBoxOptimizer._oneEvaluation(self, evaluable)
        else:
            self.switchMutations()
            if isinstance(evaluable, MaskedParameters):
                evaluable.returnZeros = False
                x0 = evaluable.params
                evaluable.returnZeros = True
    
                def f(x):
                    evaluable.returnZeros = False
                    evaluable._setParameters(x)
                    evaluable.returnZeros = True
                    return BlackBoxOptimizer._oneEvaluation(self, evaluable)
            else:
                f = lambda x: BlackBoxOptimizer._oneEvaluation(self, x)
                x0 = evaluable
            outsourced = self.localSearch(f, x0, maxEvaluations=self.localSteps, desiredEvaluation=self.desiredEvaluation, minimize=self.minimize, **self.localSearchArgs)
            assert self.localSteps > outsourced.batchSize, 'localSteps too small (' + str(self.localSteps) + '), because local search has a batch size of ' + str(outsourced.batchSize)
            _, fitness = outsourced.learn()
            self.switchMutations()
            return fitness

    @events('switchMutations','_learnStep')
    @ordered
    def _learnStep(self):
        self.switchMutations()
        HillClimber._learnStep(self)
        self.switchMutations()


@target('pybrain.optimization.memetic.innermemetic.InnerMemeticSearch')
class InnerMemeticSearch:
    @events('switchMutations','_learnStep')
    @ordered
    def _learnStep(self):
        self.switchMutations()
        ES._learnStep(self)
        self.switchMutations()


@target('pybrain.optimization.memetic.inversememetic.InverseMemeticSearch')
class InverseMemeticSearch:
    @events('switchMutations','_learnStep')
    @ordered
    def _learnStep(self):
        self.switchMutations()
        MemeticSearch._learnStep(self)
        self.switchMutations()


@target('pybrain.optimization.memetic.innerinversememetic.InnerInverseMemeticSearch')
class InnerInverseMemeticSearch:
    @events('switchMutations','_learnStep')
    @ordered
    def _learnStep(self):
        self.switchMutations()
        InnerMemeticSearch._learnStep(self)
        self.switchMutations()

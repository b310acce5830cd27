

@target('pybrain.optimization.populationbased.coevolution.coevolution.Coevolution')
@events('_doTournament', '_sharedSampling', '_relEval')
class Coevolution:
    def __init__(self, relEvaluator, seeds, **args):
        self.setArgs(**args)
        self.relEvaluator = relEvaluator
        if self.tournamentSize == None:
            self.tournamentSize = self.populationSize
        self.steps = 0
        self.generation = 0
        self.hallOfFame = []
        self.hallOfFitnesses = []
        self.allResults = {}
        self.allOpponents = {}
        self.oldPops = []
        self._initPopulation(seeds)

    def _oneGeneration(self):
        self.oldPops.append(self.pop)
        self.generation += 1
        fitnesses = self._evaluatePopulation()
        besti = argmax(array(fitnesses))
        best = self.pop[besti]
        bestFits = sorted(fitnesses)[::-1][:self._numSelected()]
        self.hallOfFame.append(best)
        self.hallOfFitnesses.append(bestFits)
        if self.verbose:
            print(('Generation', self.generation))
            print(('        relat. fits:', fListToString(sorted(fitnesses), 4)))
            if len(best.params) < 20:
                print(('        best params:', fListToString(best.params, 4)))
        self.pop = self._selectAndReproduce(self.pop, fitnesses)

    @strict
    def _averageWithParents(self, pop, childportion):
        for i, p in enumerate(pop[:]):
            if p.parent != None:
                tmp = p.copy()
                tmp.parent = p.parent
                tmp._setParameters(p.params * childportion + p.parent.params * (1 - childportion))
                pop[i] = tmp

    def _evaluatePopulation(self):
        hoFtournSize = min(self.generation, int(self.tournamentSize * self.hallOfFameEvaluation))
        tournSize = self.tournamentSize - hoFtournSize
        if self.useSharedSampling:
            opponents = self._sharedSampling(tournSize, self.pop, self.oldPops[-1])
        else:
            opponents = self.pop
        if len(opponents) < tournSize:
            tournSize = len(opponents)
        self._doTournament(self.pop, opponents, tournSize)
        if hoFtournSize > 0:
            hoF = list(set(self.hallOfFame))
            self._doTournament(self.pop, hoF, hoFtournSize)
        fitnesses = []
        for p in self.pop:
            fit = 0
            for opp in opponents:
                fit += self._beats(p, opp)
            if hoFtournSize > 0:
                for opp in hoF:
                    fit += self._beats(p, opp)
            if self.absEvalProportion > 0 and self.absEvaluator != None:
                fit = (1 - self.absEvalProportion) * fit + self.absEvalProportion * self.absEvaluator(p)
            fitnesses.append(fit)
        return fitnesses

    def _initPopulation(self, seeds):
        if self.parentChildAverage < 1:
            for s in seeds:
                s.parent = None
        self.pop = self._extendPopulation(seeds, self.populationSize)

    @strict
    def _extendPopulation(self, seeds, size):
        res = seeds[:]
        for dummy in range(size - len(seeds)):
            chosen = choice(seeds)
            tmp = chosen.copy()
            tmp.mutate()
            if self.parentChildAverage < 1:
                tmp.parent = chosen
            res.append(tmp)
        return res

    def _selectAndReproduce(self, pop, fits):
        s = list(zip(fits, pop))
        shuffle(s)
        s.sort(key=lambda x: -x[0])
        selected = [x[1] for x in s[:self._numSelected()]]
        if self.elitism:
            newpop = self._extendPopulation(selected, self.populationSize)
            if self.parentChildAverage < 1:
                self._averageWithParents(newpop, self.parentChildAverage)
        else:
            newpop = self._extendPopulation(selected, self.populationSize + self._numSelected())[self._numSelected():]
            if self.parentChildAverage < 1:
                self._averageWithParents(newpop, self.parentChildAverage)
        return newpop

    def _beats(self, h, p):
        if (h, p) not in self.allResults:
            return 0
        else:
            hpgames, hscore = self.allResults[h, p][1:3]
            phgames, pscore = self.allResults[p, h][1:3]
            return (hscore - pscore) / float(hpgames + phgames)

    def _doTournament(self, pop1, pop2, tournamentSize=None):
        for p in pop1:
            pop3 = pop2[:]
            while p in pop3:
                pop3.remove(p)
            if tournamentSize != None and tournamentSize < len(pop3):
                opps = sample(pop3, tournamentSize)
            else:
                opps = pop3
            for opp in opps:
                self._relEval(p, opp)
                self._relEval(opp, p)

    def _globalScore(self, p):
        if p not in self.allOpponents:
            return 0.0
        scoresum, played = (0.0, 0)
        for opp in self.allOpponents[p]:
            scoresum += self.allResults[p, opp][2]
            played += self.allResults[p, opp][1]
            scoresum -= self.allResults[opp, p][2]
            played += self.allResults[opp, p][1]
        played += 0.01
        return scoresum / played

    def _sharedSampling(self, numSelect, selectFrom, relativeTo):
        if numSelect < 1:
            return []
        tmp = {}
        for p in selectFrom:
            beaten = []
            for opp in relativeTo:
                if self._beats(p, opp) > 0:
                    beaten.append(opp)
            tmp[p] = beaten
        beatlist = [(len(p_beaten[1]), self._globalScore(p_beaten[0]), p_beaten[0]) for p_beaten in list(tmp.items())]
        shuffle(beatlist)
        beatlist.sort(key=lambda x: x[:2])
        best = beatlist[-1][2]
        unBeaten = list(set(relativeTo).difference(tmp[best]))
        otherSelect = selectFrom[:]
        otherSelect.remove(best)
        return [best] + self._sharedSampling(numSelect - 1, otherSelect, unBeaten)

    def _relEval(self, p, opp):
        if p not in self.allOpponents:
            self.allOpponents[p] = []
        self.allOpponents[p].append(opp)
        if (p, opp) not in self.allResults:
            self.allResults[p, opp] = [0, 0, 0.0, []]
        res = self.relEvaluator(p, opp)
        if res > 0:
            self.allResults[p, opp][0] += 1
        self.allResults[p, opp][1] += 1
        self.allResults[p, opp][2] += res
        self.allResults[p, opp][3].append(res)
        self.steps += 1


@target('pybrain.optimization.populationbased.coevolution.competitivecoevolution.CompetitiveCoevolution')
@events('_doTournament', '_competitiveSharedFitness', '_sharedSampling', '_oneGeneration')
class CompetitiveCoevolution:
    def _initPopulation(self, seeds):
        if self.parentChildAverage < 1:
            for s in seeds:
                s.parent = None
        if len(seeds) > 1:
            s1 = seeds[:len(seeds) // 2]
            s2 = seeds[len(seeds) // 2:]
        else:
            s1 = seeds
            tmp = seeds[0].copy()
            tmp.randomize()
            s2 = [tmp]
        self.pop = self._extendPopulation(s1, self.populationSize)
        self.parasitePop = self._extendPopulation(s2, self.populationSize)

    def _competitiveSharedFitness(self, hosts, parasites):
        if len(parasites) == 0:
            return [0] * len(hosts)
        beatsums = {}
        for p in parasites:
            beatsums[p] = 0.0
            for h in hosts:
                if self._beats(h, p) > 0:
                    beatsums[p] += 1
        fitnesses = []
        for h in hosts:
            hsum = 0
            unplayed = 0
            for p in parasites:
                if self._beats(h, p) > 0:
                    assert beatsums[p] > 0
                    hsum += 1.0 / beatsums[p]
                elif self._beats(h, p) == 0:
                    unplayed += 1
            if len(parasites) > unplayed:
                hsum /= float(len(parasites) - unplayed)
            hsum += 1e-05 * self._globalScore(h)
            fitnesses.append(hsum)
        return fitnesses

    def _evaluatePopulation(self):
        hoFtournSize = min(self.generation, int(self.tournamentSize * self.hallOfFameEvaluation))
        tournSize = self.tournamentSize - hoFtournSize
        if self.useSharedSampling and self.generation > 2:
            opponents = self._sharedSampling(tournSize, self.parasitePop, self.oldPops[-2])
        else:
            opponents = self.parasitePop
        if len(opponents) < tournSize:
            tournSize = len(opponents)
        self._doTournament(self.pop, opponents, tournSize)
        if hoFtournSize > 0:
            self._doTournament(self.pop, self.hallOfFame, hoFtournSize)
        fit = self._competitiveSharedFitness(self.pop, self.parasitePop)
        if hoFtournSize > 0:
            fitHof = self._competitiveSharedFitness(self.pop, self.hallOfFame)
            fit = [tournSize * f1_f2[0] + hoFtournSize * f1_f2[1] for f1_f2 in zip(fit, fitHof)]
        return fit

    def _oneGeneration(self):
        Coevolution._oneGeneration(self)
        tmp = self.pop
        self.pop = self.parasitePop
        self.parasitePop = tmp


@target('pybrain.optimization.populationbased.coevolution.multipopulationcoevolution.MultiPopulationCoevolution')
@events('_doTournament', '_oneGeneration')
class MultiPopulationCoevolution:
    @strict
    def _initPopulation(self, seeds):
        seeds = seeds[:]
        for s in seeds:
            s.parent = None
        while len(seeds) < self.numPops:
            tmp = choice(seeds).copy()
            tmp.randomize()
            seeds.append(tmp)
        self.pops = []
        for i in range(self.numPops):
            si = seeds[i::self.numPops]
            self.pops.append(self._extendPopulation(si, self.populationSize))
        self.mainpop = 0
        self.pop = self.pops[self.mainpop]

    def _evaluatePopulation(self):
        for other in self.pops:
            if other == self.pop:
                continue
            bestPart = len(other) // 2
            if bestPart < 1:
                bestPart = 1
            self._doTournament(self.pop, other[:bestPart], self.tournamentSize)
        fitnesses = []
        for p in self.pop:
            fit = 0
            for other in self.pops:
                if other == self.pop:
                    continue
                for opp in other:
                    fit += self._beats(p, opp)
            if self.absEvalProportion > 0 and self.absEvaluator != None:
                fit = (1 - self.absEvalProportion) * fit + self.absEvalProportion * self.absEvaluator(p)
            fitnesses.append(fit)
        return fitnesses

    def _oneGeneration(self):
        Coevolution._oneGeneration(self)
        self.pops[self.mainpop] = self.pop
        self.mainpop = self.generation % self.numPops
        self.pop = self.pops[self.mainpop]

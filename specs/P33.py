

@target('pybrain.rl.experiments.tournament.Tournament')
class Tournament:
    def reset(self):
        self.results = {}
        self.rounds = 0
        self.numGames = 0

    def _produceAllPairs(self):
        res = []
        for a in self.agents:
            for b in self.agents:
                if a != b:
                    res.append((a, b))
        return res

    def _oneGame(self, p1, p2):
        self.numGames += 1
        self.env.reset()
        players = (p1, p2)
        p1.color = self.startcolor
        p2.color = -p1.color
        p1.newEpisode()
        p2.newEpisode()
        i = 0
        while not self.env.gameOver():
            p = players[i]
            i = (i + 1) % 2
            act = p.getAction()
            if self.forcedLegality:
                tries = 0
                while not self.env.isLegal(*act):
                    tries += 1
                    act = p.getAction()
                    if tries > 50:
                        raise Exception('No legal move produced!')
            self.env.performAction(act)
        if players not in self.results:
            self.results[players] = []
        wincolor = self.env.getWinner()
        if wincolor == p1.color:
            winner = p1
        elif wincolor == p2.color:
            winner = p2
        else:
            winner = self.env.DRAW
        self.results[players].append(winner)

    @events('_oneGame')
    def organize(self, repeat=1):
        for dummy in range(repeat):
            self.rounds += 1
            for p1, p2 in self._produceAllPairs():
                self._oneGame(p1, p2)
        return self.results

    def eloScore(self, startingscore=1500, k=32):
        elos = {}
        for a in self.agents:
            if 'elo' in a.__dict__:
                elos[a] = a.elo
            else:
                elos[a] = startingscore
        for i, a1 in enumerate(self.agents[:-1]):
            for a2 in self.agents[i + 1:]:
                s = 0
                outcomes = self.results[a1, a2] + self.results[a2, a1]
                for r in outcomes:
                    if r == a1:
                        s += 1.0
                    elif r == self.env.DRAW:
                        s += 0.5
                est = len(outcomes) / (1.0 + 10 ** ((elos[a2] - elos[a1]) / 400.0))
                delta = k * (s - est)
                elos[a1] += delta
                elos[a2] -= delta
        for a, e in list(elos.items()):
            a.elo = e
        return elos


@target('pybrain.rl.environments.twoplayergames.twoplayergame.TwoPlayerGame')
class TwoPlayerGame:
    def reset(self):
        self.winner = None
        self.lastplayer = None

    def performAction(self, action):
        self.lastplayer = action[0]
        self.doMove(*action)

    def doMove(self, player, action):
        abstractMethod()

    def isLegal(self, player, action):
        return True

    def gameOver(self):
        return self.winner != None

    def getWinner(self):
        return self.winner


@target('pybrain.rl.environments.twoplayergames.capturegame.CaptureGame')
class CaptureGame:
    def _iterPos(self):
        for i in range(self.size):
            for j in range(self.size):
                yield (i, j)

    def reset(self):
        TwoPlayerGame.reset(self)
        self.movesDone = 0
        self.b = {}
        for p in self._iterPos():
            self.b[p] = self.EMPTY
        self.groups = {}
        self.liberties = {}

    def getBoardArray(self):
        a = zeros(self.outdim)
        for i, p in enumerate(self._iterPos()):
            if self.b[p] == self.WHITE:
                a[2 * i] = 1
            elif self.b[p] == self.BLACK:
                a[2 * i + 1] = 1
        return a

    def isLegal(self, c, pos):
        if pos not in self.b:
            return False
        elif self.b[pos] != self.EMPTY:
            return False
        elif not self.suicideenabled:
            return not self._suicide(c, pos)
        return True

    @events('_setStone')
    def doMove(self, c, pos):
        self.movesDone += 1
        if pos == 'resign':
            self.winner = -c
            return True
        elif not self.isLegal(c, pos):
            return False
        elif self._suicide(c, pos):
            assert self.suicideenabled
            self.b[pos] = 'y'
            self.winner = -c
            return True
        elif self._capture(c, pos):
            self.winner = c
            self.b[pos] = 'x'
            return True
        else:
            self._setStone(c, pos)
            return True

    def getSensors(self):
        return [x[1] for x in sorted(self.b.items())]

    def _neighbors(self, pos):
        res = []
        if pos[1] < self.size - 1:
            res.append((pos[0], pos[1] + 1))
        if pos[1] > 0:
            res.append((pos[0], pos[1] - 1))
        if pos[0] < self.size - 1:
            res.append((pos[0] + 1, pos[1]))
        if pos[0] > 0:
            res.append((pos[0] - 1, pos[1]))
        return res

    def _setStone(self, c, pos):
        self.b[pos] = c
        merge = False
        self.groups[pos] = self.size * pos[0] + pos[1]
        freen = [n for n in self._neighbors(pos) if self.b[n] == self.EMPTY]
        self.liberties[self.groups[pos]] = set(freen)
        for n in self._neighbors(pos):
            if self.b[n] == -c:
                self.liberties[self.groups[n]].difference_update([pos])
            elif self.b[n] == c:
                if merge:
                    newg = self.groups[pos]
                    oldg = self.groups[n]
                    if newg == oldg:
                        self.liberties[newg].difference_update([pos])
                    else:
                        for p in list(self.groups.keys()):
                            if self.groups[p] == oldg:
                                self.groups[p] = newg
                        self.liberties[newg].update(self.liberties[oldg])
                        self.liberties[newg].difference_update([pos])
                        del self.liberties[oldg]
                else:
                    del self.liberties[self.groups[pos]]
                    self.groups[pos] = self.groups[n]
                    self.liberties[self.groups[n]].update(freen)
                    self.liberties[self.groups[n]].difference_update([pos])
                    merge = True

    def _suicide(self, c, pos):
        for n in self._neighbors(pos):
            if self.b[n] == self.EMPTY:
                return False
        for n in self._neighbors(pos):
            if self.b[n] == c:
                if len(self.liberties[self.groups[n]]) > 1:
                    return False
        if self._capture(c, pos):
            return False
        return True

    def _capture(self, c, pos):
        for n in self._neighbors(pos):
            if self.b[n] == -c:
                if len(self.liberties[self.groups[n]]) == 1:
                    return True
        return False

    def getLiberties(self, pos):
        if self.b[pos] == self.EMPTY:
            return None
        return len(self.liberties[self.groups[pos]])

    def getGroupSize(self, pos):
        if self.b[pos] == self.EMPTY:
            return None
        g = self.groups[pos]
        return len([x for x in list(self.groups.values()) if x == g])

    def getLegals(self, c):
        return [p for p in self._iterPos() if self.b[p] == self.EMPTY]

    def getAcceptable(self, c):
        return [p for p in self.getLegals(c) if not self._suicide(c, p)]

    def getKilling(self, c):
        return [p for p in self.getAcceptable(c) if self._capture(c, p)]

    @events('_setStone')
    def randomBoard(self, nbmoves):
        c = self.BLACK
        self.reset()
        for i in range(nbmoves):
            l = set(self.getAcceptable(c))
            l.difference_update(self.getKilling(c))
            if len(l) == 0:
                return i
            self._setStone(c, choice(list(l)))
            c = -c
        return nbmoves

    @events('_setStone')
    def giveHandicap(self, h, color=BLACK):
        i = 0
        for pos in self._handicapIterator():
            i += 1
            if i > h:
                return
            if self.isLegal(color, pos):
                self._setStone(color, pos)

    def _handicapIterator(self):
        s = self.size
        assert s > 2
        yield (1, 1)
        if s > 3:
            yield (s - 2, s - 2)
            yield (1, s - 2)
            yield (s - 2, 1)
        if s > 4:
            for i in range(2, s - 2):
                yield (i, 1)
                yield (i, s - 2)
                yield (1, i)
                yield (s - 2, i)

    @events('performAction')
    def playToTheEnd(self, p1, p2):
        assert p1.color == -p2.color
        i = 0
        p1.game = self
        p2.game = self
        players = [p1, p2]
        while not self.gameOver():
            p = players[i]
            self.performAction(p.getAction())
            i = (i + 1) % 2


@target('pybrain.rl.environments.twoplayergames.gomoku.GomokuGame')
class GomokuGame:
    def _iterPos(self):
        for i in range(self.size[0]):
            for j in range(self.size[1]):
                yield (i, j)

    def reset(self):
        TwoPlayerGame.reset(self)
        self.movesDone = 0
        self.b = {}
        for p in self._iterPos():
            self.b[p] = self.EMPTY

    @rolled
    def _fiveRow(self, color, pos):
        for dir in [(0, 1), (1, 0), (1, 1), (1, -1)]:
            found = 1
            for d in [-1, 1]:
                for i in range(1, 5):
                    next = (pos[0] + dir[0] * i * d, pos[1] + dir[1] * i * d)
                    if next[0] < 0 or next[0] >= self.size[0] or next[1] < 0 or (next[1] >= self.size[1]) or (self.b[next] != color):
                        break
                    else:
                        found += 1
            if found >= 5:
                return True
        return False

    def getBoardArray(self):
        a = zeros(self.outdim)
        for i, p in enumerate(self._iterPos()):
            if self.b[p] == self.WHITE:
                a[2 * i] = 1
            elif self.b[p] == self.BLACK:
                a[2 * i + 1] = 1
        return a

    def isLegal(self, c, pos):
        return self.b[pos] == self.EMPTY

    @events('_setStone')
    def doMove(self, c, pos):
        self.movesDone += 1
        if not self.isLegal(c, pos):
            return False
        elif self._fiveRow(c, pos):
            self.winner = c
            self.b[pos] = 'x'
            return True
        else:
            self._setStone(c, pos)
            if self.movesDone == self.size[0] * self.size[1]:
                self.winner = self.DRAW
            return True

    def getSensors(self):
        return [x[1] for x in sorted(self.b.items())]

    def _setStone(self, c, pos):
        self.b[pos] = c

    def getLegals(self, c):
        return [p for p in self._iterPos() if self.b[p] == self.EMPTY]

    def getKilling(self, c):
        return [p for p in self.getLegals(c) if self._fiveRow(c, p)]

    @events('performAction')
    def playToTheEnd(self, p1, p2):
        assert p1.color == -p2.color
        i = 0
        p1.game = self
        p2.game = self
        players = [p1, p2]
        while not self.gameOver():
            p = players[i]
            self.performAction(p.getAction())
            i = (i + 1) % 2


@target('pybrain.rl.environments.twoplayergames.pente.PenteGame')
class PenteGame:
    @events('_setStone')
    def reset(self):
        GomokuGame.reset(self)
        self.pairsTaken = {self.BLACK: 0, self.WHITE: 0}
        center = (self.size[0] // 2, self.size[1] // 2)
        self._setStone(-self.startcolor, center)
        self.movesDone += 1

    @events('_killsWhich','_fiveRow')
    @frame('_killsWhich')
    @frame('_fiveRow')
    def getKilling(self, c):
        res = GomokuGame.getKilling(self, c)
        for p in self.getLegals(c):
            k = self._killsWhich(c, p)
            if self.pairsTaken[c] + len(k) / 2 >= 5:
                res.append(p)
        return res

    def _killsWhich(self, c, pos):
        res = []
        for dir in [(0, 1), (1, 0), (1, 1), (1, -1)]:
            for d in [-1, 1]:
                killcands = []
                for i in [1, 2, 3]:
                    next = (pos[0] + dir[0] * i * d, pos[1] + dir[1] * i * d)
                    if next[0] < 0 or next[0] >= self.size[0] or next[1] < 0 or (next[1] >= self.size[1]):
                        break
                    if i == 3 and self.b[next] == c:
                        res += killcands
                        break
                    if i != 3 and self.b[next] != -c:
                        break
                    killcands.append(next)
        return res

    @events('_setStone')
    def doMove(self, c, pos):
        self.movesDone += 1
        if not self.isLegal(c, pos):
            return False
        elif self._fiveRow(c, pos):
            self.winner = c
            self.b[pos] = 'x'
            return True
        else:
            tokill = self._killsWhich(c, pos)
            if self.pairsTaken[c] + len(tokill) / 2 >= 5:
                self.winner = c
                self.b[pos] = 'x'
                return True
            self._setStone(c, pos, tokill)
            if self.movesDone == self.size[0] * self.size[1] + 2 * (self.pairsTaken[self.BLACK] + self.pairsTaken[self.WHITE]):
                self.winner = self.DRAW
            return True

    def _setStone(self, c, pos, tokill=None):
        if tokill == None:
            tokill = self._killsWhich(c, pos)
        GomokuGame._setStone(self, c, pos)
        for p in tokill:
            self.b[p] = self.EMPTY
        self.pairsTaken[c] += len(tokill) // 2

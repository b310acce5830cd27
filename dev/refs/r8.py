edit('rl/environments/mazes/maze.py', [('''        res = []
        for i, row in enumerate(self.mazeTable):
            for j, p in enumerate(row):
                if p == False:
                    res.append((i, j))
        return res
''', '''        return [(i, j) for i, row in enumerate(self.mazeTable)
                for j, p in enumerate(row) if p == False]
'''), ('''        return (pos[0] + dir[0], pos[1] + dir[1])
''', '''        row, col = pos[0] + dir[0], pos[1] + dir[1]
        return (row, col)
'''), ('''        if self.stochAction > 0:
            if random() < self.stochAction:
                action = choice(list(range(len(self.allActions))))
        tmp = self._moveInDir(self.perseus, self.allActions[action])
        if self.mazeTable[tmp] == False:
            self.perseus = tmp
            self.bang = False
        else:
            self.bang = True
''', '''        if self.stochAction > 0 and random() < self.stochAction:
            action = choice(list(range(len(self.allActions))))
        target = self._moveInDir(self.perseus, self.allActions[action])
        free = self.mazeTable[target] == False
        self.bang = not free
        if free:
            self.perseus = target
'''), ('''        obs = zeros(4)
        for i, a in enumerate(Maze.allActions):
            obs[i] = self.mazeTable[self._moveInDir(self.perseus, a)]
        if self.stochObs > 0:
            for i in range(len(obs)):
                if random() < self.stochObs:
                    obs[i] = not obs[i]
        return obs
''', '''        obs = self._walls()
        if self.stochObs > 0:
            for i, o in enumerate(obs):
                if random() < self.stochObs:
                    obs[i] = not o
        return obs

    def _walls(self):
        res = zeros(4)
        for i in range(len(Maze.allActions)):
            res[i] = self.mazeTable[self._moveInDir(self.perseus, Maze.allActions[i])]
        return res
''')])
edit('rl/environments/mazes/polarmaze.py', [('''        act = PolarMaze.allActions[action]
        self.bang = False
        if act == self.Forward:
            tmp = self._moveInDir(self.perseus, Maze.allActions[self.perseusDir])
            if self.mazeTable[tmp] == False:
                self.perseus = tmp
            else:
                self.bang = True
        elif act == self.TurnLeft:
            self.perseusDir = (self.perseusDir + 1) % 4
        elif act == self.TurnRight:
            self.perseusDir = (self.perseusDir - 1) % 4
        elif act == self.TurnAround:
            self.perseusDir = (self.perseusDir + 2) % 4
''', '''        act = PolarMaze.allActions[action]
        self.bang = False
        if act == self.Forward:
            self._stepForward()
        elif act == self.TurnLeft:
            self._turn(1)
        elif act == self.TurnRight:
            self._turn(-1)
        elif act == self.TurnAround:
            self._turn(2)

    def _stepForward(self):
        tmp = self._moveInDir(self.perseus, Maze.allActions[self.perseusDir])
        if self.mazeTable[tmp] == False:
            self.perseus = tmp
            return
        self.bang = True

    def _turn(self, quarters):
        self.perseusDir = (self.perseusDir + quarters) % 4
'''), ('''        res = zeros(4)
        res[:4 - self.perseusDir] = obs[self.perseusDir:]
        res[4 - self.perseusDir:] = obs[:self.perseusDir]
        return res
''', '''        d = self.perseusDir
        res = zeros(4)
        k = 4 - d
        res[k:] = obs[:d]
        res[:k] = obs[d:]
        return res
''')])
edit('rl/environments/mazes/tasks/maze.py', [('''        if self.env.perseus == self.env.goal:
            return self.finalReward
        elif self.env.bang:
            return self.bangPenalty
        else:
            return self.defaultPenalty
''', '''        if self.env.perseus == self.env.goal:
            return self.finalReward
        return self.bangPenalty if self.env.bang else self.defaultPenalty
'''), ('''        return self.env.perseus == self.env.goal or POMDPTask.isFinished(self)
''', '''        if self.env.perseus == self.env.goal:
            return True
        return POMDPTask.isFinished(self)
''')])
edit('rl/environments/mazes/tasks/maze4x3.py', [('''        poss = []
        for a in range(self.actions):
            if (action - a) % 4 != 2:
                poss.append(a)
        if random() < self.stochAction * len(poss):
            MazeTask.performAction(self, choice(poss))
        else:
            MazeTask.performAction(self, action)
''', '''        poss = [a for a in range(self.actions) if (action - a) % 4 != 2]
        if random() < self.stochAction * len(poss):
            action = choice(poss)
        MazeTask.performAction(self, action)
''')])
edit('rl/environments/mazes/tasks/pomdp.py', [('''        if self.maxSteps != None:
            return self.steps >= self.maxSteps
        return False
''', '''        return self.maxSteps is not None and self.steps >= self.maxSteps
''')])
edit('rl/environments/mazes/tasks/mdp.py', [('''        if self.env.goal == self.env.perseus:
            self.env.reset()
            reward = 1.
        else:
            reward = 0.
        return reward
''', '''        if self.env.goal != self.env.perseus:
            return 0.
        self.env.reset()
        return 1.
'''), ('''        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[1] + self.env.perseus[1]])
        return obs
''', '''        row, col = self.env.perseus
        width = self.env.mazeTable.shape[1]
        return array([col + width * row])
''')])
edit('rl/environments/mazes/tasks/tmaze.py', [('''        goUp = choice([True, False])
        self.specialObs = goUp
        if goUp:
            self.env.goal = (3, self.length + 1)
        else:
            self.env.goal = (1, self.length + 1)
''', '''        self.specialObs = choice([True, False])
        self.env.goal = (3 if self.specialObs else 1, self.length + 1)
'''), ('''            if abs(self.env.perseus[0] - self.env.goal[0]) == 2:
                # bad choice taken
                self.env.perseus = self.env.goal
                return self.bangPenalty
''', '''            distance = abs(self.env.goal[0] - self.env.perseus[0])
            if distance == 2:
                # bad choice taken
                self.env.perseus = self.env.goal
                return self.bangPenalty
''')])
edit('rl/environments/cartpole/balancetask.py', [('''        if max(list(map(abs, self.env.getPoleAngles()))) > 0.7:
            # pole has fallen
            return True
        elif abs(self.env.getCartPosition()) > 2.4:
            # cart is out of it's border conditions
            return True
        elif self.t >= self.N:
            # maximal timesteps
            return True
        return False
''', '''        angles = [abs(a) for a in self.env.getPoleAngles()]
        fallen = max(angles) > 0.7
        return bool(fallen or abs(self.env.getCartPosition()) > 2.4 or self.t >= self.N)
'''), ('''        reward = 0
        if min(angles) < 0.05 and abs(s) < 0.05:
            reward = 0
        elif max(angles) > 0.7 or abs(s) > 2.4:
            reward = -2 * (self.N - self.t)
        else:
            reward = -1
        return reward

    def setMaxLength''', '''        if min(angles) < 0.05 and abs(s) < 0.05:
            return 0
        if max(angles) > 0.7 or abs(s) > 2.4:
            return 2 * (self.t - self.N)
        return -1

    def setMaxLength''')])
edit('rl/environments/classic/mountaincar.py', [('''        if speedt1 < bsleft:
            speedt1 = bsleft
        elif speedt1 > bsright:
            speedt1 = bsright

        post1 = position + speedt1

        if post1 <= bpleft:
            post1 = bpleft
            speedt1 = 0.0

        return [post1, speedt1]
''', '''        speedt1 = min(max(speedt1, bsleft), bsright)
        post1 = position + speedt1

        if post1 > bpleft:
            return [post1, speedt1]
        return [bpleft, 0.0]
'''), ('''        if self.done>=3 and self.resetOnSuccess:
            self.reset()
            return False
        else:
            return self.done>=3
''', '''        over = self.done >= 3
        if over and self.resetOnSuccess:
            self.reset()
            over = False
        return over
''')])
edit('rl/environments/classic/acrobot.py', [('''            theta1_dot = theta1_dot + accel1 * self.delta_t

            if theta1_dot < -self.maxSpeed1:
                theta1_dot = -self.maxSpeed1

            if theta1_dot > self.maxSpeed1:
                theta1_dot = self.maxSpeed1

            theta1 = theta1 + theta1_dot * self.delta_t
            theta2_dot = theta2_dot + accel2 * self.delta_t

            if theta2_dot < -self.maxSpeed2:
                theta2_dot = -self.maxSpeed2

            if theta2_dot > self.maxSpeed2:
                theta2_dot = self.maxSpeed2

            theta2 = theta2 + theta2_dot * self.delta_t
''', '''            theta1_dot = self._bounded(theta1_dot + accel1 * self.delta_t, self.maxSpeed1)
            theta2_dot = self._bounded(theta2_dot + accel2 * self.delta_t, self.maxSpeed2)
            theta1 += theta1_dot * self.delta_t
            theta2 += theta2_dot * self.delta_t
'''), ('''        if theta1 < -pi:
            theta1 += 2*pi
        elif theta1 > pi:
            theta1 -= 2*pi
        if theta2 < -pi:
            theta2 += 2*pi
        elif theta2 > pi:
            theta2 -= 2*pi

        xp = [theta1, theta2, theta1_dot, theta2_dot]

        return xp
''', '''        return [self._wrapped(theta1), self._wrapped(theta2), theta1_dot, theta2_dot]

    def _bounded(self, speed, limit):
        if speed < -limit:
            speed = -limit
        if speed > limit:
            speed = limit
        return speed

    def _wrapped(self, angle):
        if angle < -pi:
            return angle + 2 * pi
        if angle > pi:
            return angle - 2 * pi
        return angle
''')])
edit('rl/environments/shipsteer/shipsteer.py', [('''        thrust = min(max(thrust, -1), +2)
        rudder = min(max(rudder, -90), +90)
        drag = 5 * h + (rudder ** 2 + rnd[0])
        force = 30.0 * thrust - 2.0 * v - 0.02 * v * drag + rnd[1] * 3.0
        v = v + self.dt * force / self.mass
        v = min(max(v, -10), +40)
        torque = -v * (rudder + h + 1.0 * hdot + rnd[2] * 10.)
        last_hdot = hdot
        hdot += torque / self.I
        hdot = min(max(hdot, -180), 180)
        h += (hdot + last_hdot) / 2.0
        if h > 180.:
            h -= 360.
        elif h < -180.:
            h += 360.
        self.sensors = (h, hdot, v)
''', '''        thrust = self._clip(thrust, -1, 2)
        rudder = self._clip(rudder, -90, 90)
        drag = 5 * h + rnd[0] + rudder * rudder
        force = 30.0 * thrust - v * (2.0 + 0.02 * drag) + rnd[1] * 3.0
        v = self._clip(v + self.dt * force / self.mass, -10, 40)
        torque = -v * (rudder + h + hdot + rnd[2] * 10.)
        newdot = self._clip(hdot + torque / self.I, -180, 180)
        h = h + (newdot + hdot) / 2.0
        if h < -180.:
            h += 360.
        elif h > 180.:
            h -= 360.
        self.sensors = (h, newdot, v)

    def _clip(self, x, lo, hi):
        if x < lo:
            return lo
        elif x > hi:
            return hi
        return x
''')])
edit('rl/environments/simple/environment.py', [('''        self.state = [s + 0.1 * a for s, a in zip(self.state, self.action)]
        if self.noise:
            self.state += random.normal(0, self.noise, self.dim)
''', '''        moved = []
        for s, a in zip(self.state, self.action):
            moved.append(s + a * 0.1)
        self.state = moved
        if self.noise:
            self.state += random.normal(0, self.noise, self.dim)
''')])
edit('rl/environments/functions/multiobjective.py', [('''        g1 = 225 - (x[1]**2 + x[0]**2)
        g2 = 3*x[1] -x[0] - 10.0
        if g1 >= 0 and g2 >= 0:
            return True,array([0.,0.])
        return False,array([g1,g2])
''', '''        g1 = 225 - x[0]**2 - x[1]**2
        g2 = 3*x[1] - (x[0] + 10.0)
        if g1 < 0 or g2 < 0:
            return False, array([g1, g2])
        return True, array([0., 0.])
''')])



@target('pybrain.structure.evolvables.maskedparameters.MaskedParameters')
class MaskedParameters:
    def __init__(self, pcontainer, **args):
        TopologyEvolvable.__init__(self, pcontainer, **args)
        if self.maxComplexity == None:
            self.maxComplexity = self.pcontainer.paramdim
        self.randomize()
        self.maskableParams = self.pcontainer.params.copy()
        self._applyMask()

    def _applyMask(self):
        self.pcontainer._params[:] = self.mask * self.maskableParams

    def _setParameters(self, x):
        paramcount = 0
        for i in range(len(self.maskableParams)):
            if self.mask[i] == True:
                if self.returnZeros:
                    self.maskableParams[i] = x[i]
                else:
                    self.maskableParams[i] = x[paramcount]
                    paramcount += 1
        self._applyMask()

    def randomize(self, **args):
        self.mask = zeros(self.pcontainer.paramdim, dtype=bool)
        onbits = []
        for i in range(self.pcontainer.paramdim):
            if random() < self.maskOnProbability:
                self.mask[i] = True
                onbits.append(i)
        over = len(onbits) - self.maxComplexity
        if over > 0:
            for i in sample(onbits, over):
                self.mask[i] = False
        self.maskableParams = randn(self.pcontainer.paramdim) * self.stdParams
        self._applyMask()

    def topologyMutate(self):
        for i in range(self.pcontainer.paramdim):
            if random() < self.maskFlipProbability:
                self.mask[i] = not self.mask[i]
        tooMany = sum(self.mask) - self.maxComplexity
        for i in range(tooMany):
            while True:
                ind = int(random() * self.pcontainer.paramdim)
                if self.mask[ind]:
                    self.mask[ind] = False
                    break
        if sum(self.mask) == 0:
            ind = int(random() * self.pcontainer.paramdim)
            self.mask[ind] = True
        self._applyMask()

    def mutate(self):
        for i in range(self.pcontainer.paramdim):
            self.maskableParams[i] += gauss(0, self.mutationStdev)
        self._applyMask()

    def paramdim(self):
        if self.returnZeros:
            return self.pcontainer.paramdim
        else:
            return sum(self.mask)

    def params(self):
        if self.returnZeros:
            return self.pcontainer.params
        else:
            x = zeros(self.paramdim)
            paramcount = 0
            for i in range(len(self.maskableParams)):
                if self.mask[i] == True:
                    x[paramcount] = self.maskableParams[i]
                    paramcount += 1
            return x


@target('pybrain.structure.evolvables.topology.TopologyEvolvable')
class TopologyEvolvable:
    def __init__(self, pcontainer, **args):
        self.setArgs(**args)
        self.pcontainer = pcontainer

    def _setParameters(self, x):
        self.pcontainer._setParameters(x)

    def topologyMutate(self):
        abstractMethod()

    def newSimilarInstance(self):
        res = self.copy()
        res.randomize()
        return res

    def copy(self):
        tmp = self.pcontainer
        self.pcontainer = None
        cp = Evolvable.copy(self)
        cp.pcontainer = tmp
        self.pcontainer = tmp
        return cp

    def params(self):
        return self.pcontainer.params


@target('pybrain.structure.evolvables.maskedmodule.MaskedModule')
class MaskedModule:
    def reset(self):
        return self.pcontainer.reset()

    def _resetBuffers(self):
        return self.pcontainer._resetBuffers()

    def activate(self, *args, **kwargs):
        return self.pcontainer.activate(*args, **kwargs)

    def backActivate(self, *args, **kwargs):
        return self.pcontainer.backActivate(*args, **kwargs)

    def forward(self, *args, **kwargs):
        return self.pcontainer.forward(*args, **kwargs)

    def backward(self, *args, **kwargs):
        return self.pcontainer.backward(*args, **kwargs)

    def activateOnDataset(self, *args, **kwargs):
        return self.pcontainer.activateOnDataset(*args, **kwargs)



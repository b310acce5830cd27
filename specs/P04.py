

@target('pybrain.structure.parametercontainer.ParameterContainer')
class ParameterContainer:
    def __init__(self, paramdim=0, **args):
        self.setArgs(**args)
        self.paramdim = paramdim
        if paramdim > 0:
            self._params = zeros(self.paramdim)
            from pybrain.structure.modules.module import Module
            from pybrain.structure.connections.connection import Connection
            if isinstance(self, Module) or isinstance(self, Connection):
                self.hasDerivatives = True
            if self.hasDerivatives:
                self._derivs = zeros(self.paramdim)
            self.randomize()

    def __len__(self):
        return self.paramdim

    def _setParameters(self, p, owner=None):
        if isinstance(p, list):
            p = array(p)
        assert isinstance(p, ndarray)
        if self.owner == self:
            self._params[:] = p
        elif self.owner != owner:
            raise Exception('Parameter ownership mismatch: cannot set to new array.')
        else:
            self._params = p
            self.paramdim = size(self.params)

    def _setDerivatives(self, d, owner=None):
        assert self.owner == owner
        assert size(d) == self.paramdim
        self._derivs = d

    def resetDerivatives(self):
        assert self.hasDerivatives
        self._derivs *= 0

    def randomize(self):
        self._params[:] = randn(self.paramdim) * self.stdParams
        if self.hasDerivatives:
            self.resetDerivatives()

    def mutate(self):
        self._params += randn(self.paramdim) * self.mutationStd

    def params(self):
        return self._params

    def derivs(self):
        return self._derivs


@target('pybrain.structure.networks.network.Network')
class Network:
    def _containerIterator(self):
        for m in self.modulesSorted:
            if m.paramdim:
                yield m
            for c in self.connections[m]:
                if c.paramdim and (not isinstance(c, SharedConnection)):
                    yield c
        for mc in self.motherconnections:
            if mc.paramdim:
                yield mc

    def _setParameters(self, p, owner=None):
        ParameterContainer._setParameters(self, p, owner)
        index = 0
        for x in self._containerIterator():
            x._setParameters(self.params[index:index + x.paramdim], self)
            index += x.paramdim

    def _setDerivatives(self, d, owner=None):
        ParameterContainer._setDerivatives(self, d, owner)
        index = 0
        for x in self._containerIterator():
            x._setDerivatives(self.derivs[index:index + x.paramdim], self)
            index += x.paramdim

    @state('_params', '_derivs', 'indim', 'outdim', 'bufferlist', 'modulesSorted')
    def sortModules(self):
        if self.sorted:
            return
        self._topologicalSort()
        for m in self.modules:
            self.connections[m].sort(key=lambda x: x.name)
        self.motherconnections.sort(key=lambda x: x.name)
        tmp = [pc.params for pc in self._containerIterator()]
        total_size = sum((scipy.size(i) for i in tmp))
        ParameterContainer.__init__(self, total_size)
        if total_size > 0:
            self.params[:] = scipy.concatenate(tmp)
            self._setParameters(self.params)
            tmp = [pc.derivs for pc in self._containerIterator()]
            self.resetDerivatives()
            self.derivs[:] = scipy.concatenate(tmp)
            self._setDerivatives(self.derivs)
        self.indim = int(sum((m.indim for m in self.inmodules)))
        self.outdim = int(sum((m.outdim for m in self.outmodules)))
        self.indim = 0
        for m in self.inmodules:
            self.indim += m.indim
        self.outdim = 0
        for m in self.outmodules:
            self.outdim += m.outdim
        self.bufferlist = []
        Module.__init__(self, self.indim, self.outdim, name=self.name)
        self.sorted = True


@target('pybrain.structure.networks.recurrent.RecurrentNetworkComponent')
class RecurrentNetworkComponent:
    def _containerIterator(self):
        for c in super(RecurrentNetworkComponent, self)._containerIterator():
            yield c
        for c in self.recurrentConns:
            if c.paramdim and (not isinstance(c, SharedConnection)):
                yield c


@target('pybrain.structure.networks.neurondecomposable.NeuronDecomposableNetwork')
class NeuronDecomposableNetwork:
    def addModule(self, m):
        assert isinstance(m, NeuronLayer)
        super(NeuronDecomposableNetwork, self).addModule(m)

    def sortModules(self):
        super(NeuronDecomposableNetwork, self).sortModules()
        self._constructParameterInfo()
        self.decompositionIndices = {}
        for neuron in self._neuronIterator():
            self.decompositionIndices[neuron] = []
        for w in range(self.paramdim):
            inneuron, outneuron = self.paramInfo[w]
            if self.espStyleDecomposition and outneuron[0] in self.outmodules:
                self.decompositionIndices[inneuron].append(w)
            else:
                self.decompositionIndices[outneuron].append(w)

    def _neuronIterator(self):
        for m in self.modules:
            for n in range(m.dim):
                yield (m, n)

    def _constructParameterInfo(self):
        self.paramInfo = {}
        index = 0
        for x in self._containerIterator():
            if isinstance(x, FullConnection):
                for w in range(x.paramdim):
                    inbuf, outbuf = x.whichBuffers(w)
                    self.paramInfo[index + w] = ((x.inmod, x.inmod.whichNeuron(outputIndex=inbuf)), (x.outmod, x.outmod.whichNeuron(inputIndex=outbuf)))
            elif isinstance(x, NeuronLayer):
                for n in range(x.paramdim):
                    self.paramInfo[index + n] = ((x, n), (x, n))
            else:
                raise
            index += x.paramdim

    def getDecomposition(self):
        res = []
        for neuron in self._neuronIterator():
            nIndices = self.decompositionIndices[neuron]
            if len(nIndices) > 0:
                tmp = zeros(len(nIndices))
                for i, ni in enumerate(nIndices):
                    tmp[i] = self.params[ni]
                res.append(tmp)
        return res

    def setDecomposition(self, decomposedParams):
        nindex = 0
        for neuron in self._neuronIterator():
            nIndices = self.decompositionIndices[neuron]
            if len(nIndices) > 0:
                for i, ni in enumerate(nIndices):
                    self.params[ni] = decomposedParams[nindex][i]
                nindex += 1

    @staticmethod
    def convertNormalNetwork(n):
        if isinstance(n, RecurrentNetwork):
            res = RecurrentDecomposableNetwork()
            for c in n.recurrentConns:
                res.addRecurrentConnection(c)
        else:
            res = FeedForwardDecomposableNetwork()
        for m in n.inmodules:
            res.addInputModule(m)
        for m in n.outmodules:
            res.addOutputModule(m)
        for m in n.modules:
            res.addModule(m)
        for c in chain(*list(n.connections.values())):
            res.addConnection(c)
        res.name = n.name
        res.sortModules()
        return res


@target('pybrain.structure.connections.full.FullConnection')
class FullConnection:
    def whichBuffers(self, paramIndex):
        return (paramIndex % self.inmod.outdim, paramIndex // self.inmod.outdim)

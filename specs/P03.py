

@target('pybrain.structure.networks.feedforward.FeedForwardNetworkComponent')
class FeedForwardNetworkComponent:
    def activate(self, inpt):
        self.reset()
        return super(FeedForwardNetworkComponent, self).activate(inpt)

    def _forwardImplementation(self, inbuf, outbuf):
        assert self.sorted, '.sortModules() has not been called'
        index = 0
        offset = self.offset
        for m in self.inmodules:
            m.inputbuffer[offset] = inbuf[index:index + m.indim]
            index += m.indim
        for m in self.modulesSorted:
            m.forward()
            for c in self.connections[m]:
                c.forward()
        index = 0
        for m in self.outmodules:
            outbuf[index:index + m.outdim] = m.outputbuffer[offset]
            index += m.outdim

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        assert self.sorted, '.sortModules() has not been called'
        index = 0
        offset = self.offset
        for m in self.outmodules:
            m.outputerror[offset] = outerr[index:index + m.outdim]
            index += m.outdim
        for m in reversed(self.modulesSorted):
            for c in self.connections[m]:
                c.backward()
            m.backward()
        index = 0
        for m in self.inmodules:
            inerr[index:index + m.indim] = m.inputerror[offset]
            index += m.indim


@target('pybrain.structure.networks.recurrent.RecurrentNetworkComponent')
class RecurrentNetworkComponent:
    def __init__(self, forget=None, name=None, *args, **kwargs):
        self.recurrentConns = []
        self.maxoffset = 0
        self.forget = forget

    def activate(self, inpt):
        self.inputbuffer[self.offset] = inpt
        self.forward()
        if self.forget:
            return self.outputbuffer[self.offset].copy()
        else:
            return self.outputbuffer[self.offset - 1].copy()

    def backActivate(self, outerr):
        self.outputerror[self.offset - 1] = outerr
        self.backward()
        return self.inputerror[self.offset].copy()

    def forward(self):
        if not self.offset + 1 < self.inputbuffer.shape[0]:
            self._growBuffers()
        super(RecurrentNetworkComponent, self).forward()
        self.offset += 1
        self.maxoffset = max(self.offset, self.maxoffset)

    def backward(self):
        self.offset -= 1
        super(RecurrentNetworkComponent, self).backward()

    def _isLastTimestep(self):
        return self.offset == self.maxoffset

    def _forwardImplementation(self, inbuf, outbuf):
        assert self.sorted, '.sortModules() has not been called'
        if self.forget:
            self.offset += 1
        index = 0
        offset = self.offset
        for m in self.inmodules:
            m.inputbuffer[offset] = inbuf[index:index + m.indim]
            index += m.indim
        if offset > 0:
            for c in self.recurrentConns:
                c.forward(offset - 1, offset)
        for m in self.modulesSorted:
            m.forward()
            for c in self.connections[m]:
                c.forward(offset, offset)
        if self.forget:
            for m in self.modules:
                m.shift(-1)
            offset -= 1
            self.offset -= 2
        index = 0
        for m in self.outmodules:
            outbuf[index:index + m.outdim] = m.outputbuffer[offset]
            index += m.outdim

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        assert not self.forget, 'Cannot back propagate a forgetful network'
        assert self.sorted, '.sortModules() has not been called'
        index = 0
        offset = self.offset
        for m in self.outmodules:
            m.outputerror[offset] = outerr[index:index + m.outdim]
            index += m.outdim
        if not self._isLastTimestep():
            for c in self.recurrentConns:
                c.backward(offset, offset + 1)
        for m in reversed(self.modulesSorted):
            for c in self.connections[m]:
                c.backward(offset, offset)
            m.offset = offset
            m.backward()
        index = 0
        for m in self.inmodules:
            inerr[index:index + m.indim] = m.inputerror[offset]
            index += m.indim

    def sortModules(self):
        self.recurrentConns.sort(key=lambda x: x.name)
        super(RecurrentNetworkComponent, self).sortModules()

    def addRecurrentConnection(self, c):
        if isinstance(c, SharedConnection):
            if c.mother not in self.motherconnections:
                self.motherconnections.append(c.mother)
                c.mother.owner = self
        elif c.paramdim > 0:
            c.owner = self
        self.recurrentConns.append(c)
        self.sorted = False

    def _containerIterator(self):
        for c in super(RecurrentNetworkComponent, self)._containerIterator():
            yield c
        for c in self.recurrentConns:
            if c.paramdim and (not isinstance(c, SharedConnection)):
                yield c


@target('pybrain.structure.networks.recurrent.RecurrentNetwork')
class RecurrentNetwork:
    def __init__(self, *args, **kwargs):
        Network.__init__(self, *args, **kwargs)
        forget = kwargs.pop('forget', False)
        RecurrentNetworkComponent.__init__(self, forget, *args, **kwargs)


@target('pybrain.structure.networks.network.Network')
class Network:
    def __getOffset(self):
        return self.__offset

    def __setOffset(self, x):
        self.__offset = x
        for m in self.modules:
            m.offset = x

    def __init__(self, name=None, **args):
        ParameterContainer.__init__(self, **args)
        self.name = name
        self.modules = set()
        self.modulesSorted = []
        self.connections = {}
        self.inmodules = []
        self.outmodules = []
        self.motherconnections = []
        self.sorted = False

    def __getitem__(self, name):
        for m in self.modules:
            if m.name == name:
                return m
        return None

    def addModule(self, m):
        if isinstance(m, ModuleSlice):
            m = m.base
        if m not in self.modules:
            self.modules.add(m)
        if not m in self.connections:
            self.connections[m] = []
        if m.paramdim > 0:
            m.owner = self
        if m.sequential and (not self.sequential):
            logging.warning(('Module %s is sequential, and added to a FFN. Are you sure ' + "you know what you're doing?") % m)
        self.sorted = False

    def addInputModule(self, m):
        if isinstance(m, ModuleSlice):
            m = m.base
        if m not in self.inmodules:
            self.inmodules.append(m)
        self.addModule(m)

    def addOutputModule(self, m):
        if isinstance(m, ModuleSlice):
            m = m.base
        if m not in self.outmodules:
            self.outmodules.append(m)
        self.addModule(m)

    def addConnection(self, c):
        if not c.inmod in self.connections:
            self.connections[c.inmod] = []
        self.connections[c.inmod].append(c)
        if isinstance(c, SharedConnection):
            if c.mother not in self.motherconnections:
                self.motherconnections.append(c.mother)
                c.mother.owner = self
        elif c.paramdim > 0:
            c.owner = self
        self.sorted = False

    def _topologicalSort(self):
        graph = {}
        for node in self.modules:
            if node not in graph:
                graph[node] = [0]
        for c in chain(*list(self.connections.values())):
            graph[c.inmod].append(c.outmod)
            graph[c.outmod][0] += 1
        roots = [node for node, nodeinfo in list(graph.items()) if nodeinfo[0] == 0]
        roots.sort(key=lambda x: x.name)
        self.modulesSorted = []
        while len(roots) != 0:
            root = roots[0]
            roots = roots[1:]
            self.modulesSorted.append(root)
            for child in graph[root][1:]:
                graph[child][0] -= 1
                if graph[child][0] == 0:
                    roots.append(child)
            del graph[root]
        if graph:
            raise NetworkConstructionException('Loop in network graph.')

    @state('_params', '_derivs', 'indim', 'outdim', 'bufferlist', 'modulesSorted')
    def sortModules(self):
        if self.sorted:
            return
        self._topologicalSort()
        for m in self.modules:
            self.connections[m].sort(key=lambda x: x.name)
        self.motherconnections.sort(key=lambda x: x.name)
        tmp = [pc.params for pc in self._containerIterator()]
        total_size = sum((scipy.size(i) for i in tmp))
        ParameterContainer.__init__(self, total_size)
        if total_size > 0:
            self.params[:] = scipy.concatenate(tmp)
            self._setParameters(self.params)
            tmp = [pc.derivs for pc in self._containerIterator()]
            self.resetDerivatives()
            self.derivs[:] = scipy.concatenate(tmp)
            self._setDerivatives(self.derivs)
        self.indim = int(sum((m.indim for m in self.inmodules)))
        self.outdim = int(sum((m.outdim for m in self.outmodules)))
        self.indim = 0
        for m in self.inmodules:
            self.indim += m.indim
        self.outdim = 0
        for m in self.outmodules:
            self.outdim += m.outdim
        self.bufferlist = []
        Module.__init__(self, self.indim, self.outdim, name=self.name)
        self.sorted = True

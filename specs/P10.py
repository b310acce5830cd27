

@target('pybrain.structure.moduleslice.ModuleSlice')
class ModuleSlice:
    def __init__(self, base, inSliceFrom=0, inSliceTo=None, outSliceFrom=0, outSliceTo=None):
        if isinstance(base, ModuleSlice):
            self.base = base.base
            self.inOffset = inSliceFrom + base.inOffset
            self.outOffset = outSliceFrom + base.outOffset
            if inSliceTo == None:
                inSliceTo = base.indim
            if outSliceTo == None:
                outSliceTo = base.outdim
            self.name = base.base.name
        else:
            self.base = base
            self.inOffset = inSliceFrom
            self.outOffset = outSliceFrom
            if inSliceTo == None:
                inSliceTo = self.base.indim
            if outSliceTo == None:
                outSliceTo = self.base.outdim
            self.name = base.name
        assert self.inOffset >= 0 and self.outOffset >= 0
        self.indim = inSliceTo - inSliceFrom
        self.outdim = outSliceTo - outSliceFrom
        self.name += '-slice:(' + str(self.inOffset) + ',' + str(self.indim + self.inOffset) + ')(' + str(self.outOffset) + ',' + str(self.outdim + self.outOffset) + ')'
        assert self.indim + self.outdim < base.indim + base.outdim


@target('pybrain.structure.modulemesh.ModuleMesh')
class ModuleMesh:
    def __init__(self, constructor, dimensions, name=None, baserename=False):
        self.dims = dimensions
        if name != None:
            self.name = name
        self.components = {}
        for coord in iterCombinations(self.dims):
            tmp = constructor()
            self.components[coord] = tmp
            tmp.name = self.name + str(coord)
            if baserename and isinstance(tmp, ModuleSlice):
                tmp.base.name = tmp.name
        self.componentIndim = tmp.indim
        self.componentOutdim = tmp.outdim

    @staticmethod
    def constructWithLayers(layerclass, layersize, dimensions, name=None):
        c = lambda: layerclass(layersize)
        return ModuleMesh(c, dimensions, name)

    @staticmethod
    def viewOnFlatLayer(layer, dimensions, name=None):
        assert max(dimensions) > 1, 'At least one dimension needs to be larger than one.'
    
        def slicer():
            nbunits = reduce(lambda x, y: x * y, dimensions, 1)
            insize = layer.indim // nbunits
            outsize = layer.outdim // nbunits
            for index in range(nbunits):
                yield ModuleSlice(layer, insize * index, insize * (index + 1), outsize * index, outsize * (index + 1))
        c = slicer()
        return ModuleMesh(lambda: next(c), dimensions, name)

    def __iter__(self):
        for coord in iterCombinations(self.dims):
            yield self.components[coord]

    def __getitem__(self, coord):
        return self.components[coord]


@target('pybrain.tools.shortcuts.buildNetwork')
def buildNetwork(*layers, **options):
    opt = {'bias': True, 'hiddenclass': SigmoidLayer, 'outclass': LinearLayer, 'outputbias': True, 'peepholes': False, 'recurrent': False, 'fast': False}
    for key in options:
        if key not in list(opt.keys()):
            raise NetworkError('buildNetwork unknown option: %s' % key)
        opt[key] = options[key]
    if len(layers) < 2:
        raise NetworkError('buildNetwork needs 2 arguments for input and output layers at least.')
    network_map = {(False, False): FeedForwardNetwork, (True, False): RecurrentNetwork}
    try:
        network_map[False, True] = _FeedForwardNetwork
        network_map[True, True] = _RecurrentNetwork
    except NameError:
        if opt['fast']:
            raise NetworkError('No fast networks available.')
    if opt['hiddenclass'].sequential or opt['outclass'].sequential:
        if not opt['recurrent']:
            opt['recurrent'] = True
    Network = network_map[opt['recurrent'], opt['fast']]
    n = Network()
    n.addInputModule(LinearLayer(layers[0], name='in'))
    n.addOutputModule(opt['outclass'](layers[-1], name='out'))
    if opt['bias']:
        n.addModule(BiasUnit(name='bias'))
        if opt['outputbias']:
            n.addConnection(FullConnection(n['bias'], n['out']))
    for i, num in enumerate(layers[1:-1]):
        layername = 'hidden%i' % i
        if issubclass(opt['hiddenclass'], LSTMLayer):
            n.addModule(opt['hiddenclass'](num, peepholes=opt['peepholes'], name=layername))
        else:
            n.addModule(opt['hiddenclass'](num, name=layername))
        if opt['bias']:
            n.addConnection(FullConnection(n['bias'], n[layername]))
    for i in range(len(layers) - 3):
        n.addConnection(FullConnection(n['hidden%i' % i], n['hidden%i' % (i + 1)]))
    if len(layers) == 2:
        n.addConnection(FullConnection(n['in'], n['out']))
    else:
        n.addConnection(FullConnection(n['in'], n['hidden0']))
        n.addConnection(FullConnection(n['hidden%i' % (len(layers) - 3)], n['out']))
    if issubclass(opt['hiddenclass'], LSTMLayer):
        if len(layers) > 3:
            errorexit('LSTM networks with > 1 hidden layers are not supported!')
        n.addRecurrentConnection(FullConnection(n['hidden0'], n['hidden0']))
    n.sortModules()
    return n


@target('pybrain.tools.shortcuts._buildNetwork')
def _buildNetwork(*layers, **options):
    bias = options['bias'] if 'bias' in options else False
    net = FeedForwardNetwork()
    layerParts = iter(layers)
    firstPart = iter(next(layerParts))
    firstLayer = next(firstPart)
    net.addInputModule(firstLayer)
    prevLayer = firstLayer
    for part in chain(firstPart, layerParts):
        new_part = True
        for layer in part:
            net.addModule(layer)
            if new_part:
                ConnectionClass = FullConnection
                if bias:
                    biasUnit = BiasUnit('BiasUnit for %s' % layer.name)
                    net.addModule(biasUnit)
                    net.addConnection(FullConnection(biasUnit, layer))
            else:
                ConnectionClass = IdentityConnection
            new_part = False
            conn = ConnectionClass(prevLayer, layer)
            net.addConnection(conn)
            prevLayer = layer
    net.addOutputModule(layer)
    net.sortModules()
    return net


@target('pybrain.structure.networks.swiping.SwipingNetwork')
class SwipingNetwork:
    def __init__(self, inmesh=None, hiddenmesh=None, outmesh=None, predefined=None, **args):
        if predefined != None:
            self.predefined = predefined
        else:
            self.predefined = {}
        super(SwipingNetwork, self).__init__(**args)
        if inmesh != None:
            self.setArgs(dims=inmesh.dims)
        elif self.dims == None:
            raise Exception('No dimensions specified, or derivable')
        self.swipes = 2 ** len(self.dims)
        if inmesh != None:
            self._buildSwipingStructure(inmesh, hiddenmesh, outmesh)
            self.sortModules()

    def _verifyDimensions(self, inmesh, hiddenmesh, outmesh):
        assert self.dims == inmesh.dims
        assert outmesh.dims == self.dims
        assert tuple(hiddenmesh.dims[:-1]) == self.dims, '%s <-> %s' % (hiddenmesh.dims[:-1], self.dims)
        assert hiddenmesh.dims[-1] == self.swipes
        assert min(self.dims) > 1

    def _buildSwipingStructure(self, inmesh, hiddenmesh, outmesh):
        self._verifyDimensions(inmesh, hiddenmesh, outmesh)
        for c in inmesh:
            self.addInputModule(c)
        for c in outmesh:
            self.addOutputModule(c)
        for c in hiddenmesh:
            self.addModule(c)
        if 'inconn' not in self.predefined:
            self.predefined['inconn'] = MotherConnection(inmesh.componentOutdim * hiddenmesh.componentIndim, name='inconn')
        if 'outconn' not in self.predefined:
            self.predefined['outconn'] = MotherConnection(outmesh.componentIndim * hiddenmesh.componentOutdim, name='outconn')
        if 'hconns' not in self.predefined:
            self.predefined['hconns'] = {}
            for s in range(len(self.dims)):
                if self.symmetricdirections:
                    if s > 0 and self.symmetricdimensions:
                        self.predefined['hconns'][s] = self.predefined['hconns'][0]
                    else:
                        self.predefined['hconns'][s] = MotherConnection(hiddenmesh.componentIndim * hiddenmesh.componentOutdim, name='hconn' + str(s))
                else:
                    for dir in ['-', '+']:
                        if s > 0 and self.symmetricdimensions:
                            self.predefined['hconns'][s, dir] = self.predefined['hconns'][0, dir]
                        else:
                            self.predefined['hconns'][s, dir] = MotherConnection(hiddenmesh.componentIndim * hiddenmesh.componentOutdim, name='hconn' + str(s) + dir)
        for unit in self._iterateOverUnits():
            for swipe in range(self.swipes):
                hunit = tuple(list(unit) + [swipe])
                self.addConnection(SharedFullConnection(self.predefined['inconn'], inmesh[unit], hiddenmesh[hunit]))
                self.addConnection(SharedFullConnection(self.predefined['outconn'], hiddenmesh[hunit], outmesh[unit]))
                for dim, maxval in enumerate(self.dims):
                    previousunit = list(hunit)
                    if swipe // 2 ** dim % 2 == 0:
                        previousunit[dim] -= 1
                        dir = '+'
                    else:
                        previousunit[dim] += 1
                        dir = '-'
                    if self.symmetricdirections:
                        hconn = self.predefined['hconns'][dim]
                    else:
                        hconn = self.predefined['hconns'][dim, dir]
                    previousunit = tuple(previousunit)
                    if previousunit[dim] >= 0 and previousunit[dim] < maxval:
                        self.addConnection(SharedFullConnection(hconn, hiddenmesh[previousunit], hiddenmesh[hunit]))

    def _iterateOverUnits(self):
        return iterCombinations(self.dims)


@target('pybrain.structure.networks.borderswiping.BorderSwipingNetwork')
class BorderSwipingNetwork:
    def __init__(self, inmesh=None, hiddenmesh=None, outmesh=None, **args):
        if not self.symmetricdirections:
            raise NotImplementedError('BorderSwipingNetworks are currently limited so direction-symmetric weights.')
        if inmesh != None:
            args['dims'] = inmesh.dims
        SwipingNetwork.__init__(self, **args)
        if inmesh != None:
            self._buildBorderStructure(inmesh, hiddenmesh, outmesh)
            self.sortModules()

    def _buildBorderStructure(self, inmesh, hiddenmesh, outmesh):
        self._buildSwipingStructure(inmesh, hiddenmesh, outmesh)
        self.addModule(BiasUnit(name='bias'))
        if self.simpleborders:
            if not 'borderconn' in self.predefined:
                self.predefined['borderconn'] = MotherConnection(hiddenmesh.componentIndim, name='bconn')
        else:
            if not 'bordconns' in self.predefined:
                self.predefined['bordconns'] = {}
            for dim, maxval in enumerate(self.dims):
                if dim > 0 and self.symmetricdimensions:
                    self.predefined['bordconns'][dim] = self.predefined['bordconns'][0]
                elif dim not in self.predefined['bordconns']:
                    self.predefined['bordconns'][dim] = {}
                tmp = self.predefined['bordconns'][dim].copy()
                if len(self.dims) == 1 and () not in tmp:
                    tmp[()] = MotherConnection(hiddenmesh.componentIndim, name='bconn')
                for t in iterCombinations(tupleRemoveItem(self.dims, dim)):
                    tc = self._canonicForm(t, dim)
                    if t == tc and t not in tmp:
                        tmp[t] = MotherConnection(hiddenmesh.componentIndim, name='bconn' + str(dim) + str(t))
                        if self.extrapolateBorderValues:
                            p = self._extrapolateBorderAt(t, self.predefined['bordconns'][dim])
                            if p is not None:
                                tmp[t].params[:] = p
                self.predefined['bordconns'][dim] = tmp
        for dim, maxval in enumerate(self.dims):
            for unit in self._iterateOverUnits():
                if self.simpleborders:
                    bconn = self.predefined['borderconn']
                else:
                    tc = self._canonicForm(tupleRemoveItem(unit, dim), dim)
                    bconn = self.predefined['bordconns'][dim][tc]
                hunits = []
                if unit[dim] == 0:
                    for swipe in range(self.swipes):
                        if swipe // 2 ** dim % 2 == 0:
                            hunits.append(tuple(list(unit) + [swipe]))
                if unit[dim] == maxval - 1:
                    for swipe in range(self.swipes):
                        if swipe // 2 ** dim % 2 == 1:
                            hunits.append(tuple(list(unit) + [swipe]))
                for hunit in hunits:
                    self.addConnection(SharedFullConnection(bconn, self['bias'], hiddenmesh[hunit]))

    def _canonicForm(self, tup, dim):
        if not self.symmetricdimensions:
            return tup
        canonic = []
        for dim, maxval in enumerate(tupleRemoveItem(self.dims, dim)):
            canonic.append(min(maxval - 1 - tup[dim], tup[dim]))
        return tuple(canonic)

    def _extrapolateBorderAt(self, t, using):
        closest = reachable(decrementAny, [t], list(using.keys()))
        if len(closest) > 0:
            params = zeros(using[list(closest.keys())[0]].paramdim)
            normalize = 0.0
            for c, dist in list(closest.items()):
                params += using[c].params / dist
                normalize += 1.0 / dist
            params /= normalize
            return params
        return None


@target('pybrain.structure.networks.bidirectional.BidirectionalNetwork')
class BidirectionalNetwork:
    def __init__(self, predefined=None, **kwargs):
        if predefined is not None:
            self.predefined = predefined
        else:
            self.predefined = {}
        FeedForwardNetwork.__init__(self, **kwargs)
        assert self.seqlen is not None
        inmod = LinearLayer(self.inputsize * self.seqlen, name='input')
        inmesh = ModuleMesh.viewOnFlatLayer(inmod, (self.seqlen,), 'inmesh')
        outmod = self.outcomponentclass(self.outputsize * self.seqlen, name='output')
        outmesh = ModuleMesh.viewOnFlatLayer(outmod, (self.seqlen,), 'outmesh')
        hiddenmesh = ModuleMesh.constructWithLayers(self.componentclass, self.hiddensize, (2, self.seqlen), 'hidden')
        for c in inmesh:
            self.addInputModule(c)
        for c in outmesh:
            self.addOutputModule(c)
        for c in hiddenmesh:
            self.addModule(c)
        inconnf = MotherConnection(inmesh.componentOutdim * hiddenmesh.componentIndim, name='inconn')
        outconnf = MotherConnection(outmesh.componentIndim * hiddenmesh.componentOutdim, name='outconn')
        forwardconn = MotherConnection(hiddenmesh.componentIndim * hiddenmesh.componentOutdim, name='fconn')
        if self.symmetric:
            backwardconn = forwardconn
            inconnb = inconnf
            outconnb = outconnf
        else:
            backwardconn = MotherConnection(hiddenmesh.componentIndim * hiddenmesh.componentOutdim, name='bconn')
            inconnb = MotherConnection(inmesh.componentOutdim * hiddenmesh.componentIndim, name='inconn')
            outconnb = MotherConnection(outmesh.componentIndim * hiddenmesh.componentOutdim, name='outconn')
        for i in range(self.seqlen):
            self.addConnection(SharedFullConnection(inconnf, inmesh[i,], hiddenmesh[0, i]))
            self.addConnection(SharedFullConnection(inconnb, inmesh[i,], hiddenmesh[1, i]))
            self.addConnection(SharedFullConnection(outconnf, hiddenmesh[0, i], outmesh[i,]))
            self.addConnection(SharedFullConnection(outconnb, hiddenmesh[1, i], outmesh[i,]))
            if i > 0:
                self.addConnection(SharedFullConnection(forwardconn, hiddenmesh[0, i - 1], hiddenmesh[0, i]))
            if i < self.seqlen - 1:
                self.addConnection(SharedFullConnection(backwardconn, hiddenmesh[1, i + 1], hiddenmesh[1, i]))
        self.sortModules()


@target('pybrain.structure.networks.multidimensional.MultiDimensionalRNN')
class MultiDimensionalRNN:
    def __init__(self, dims, **args):
        SwipingNetwork.__init__(self, dims=dims, **args)
        pdims = product(dims)
        inmod = LinearLayer(self.insize * pdims, name='input')
        inmesh = ModuleMesh.viewOnFlatLayer(inmod, dims, 'inmesh')
        outmod = self.outcomponentclass(self.outputs * pdims, name='output')
        outmesh = ModuleMesh.viewOnFlatLayer(outmod, dims, 'outmesh')
        if self.componentclass is MDLSTMLayer:
            c = lambda: MDLSTMLayer(self.hsize, 2, self.peepholes).meatSlice()
            adims = tuple(list(dims) + [4])
            hiddenmesh = ModuleMesh(c, adims, 'hidden', baserename=True)
        else:
            hiddenmesh = ModuleMesh.constructWithLayers(self.componentclass, self.hsize, tuple(list(dims) + [self.swipes]), 'hidden')
        self._buildSwipingStructure(inmesh, hiddenmesh, outmesh)
        for m in self.modules:
            if isinstance(m, MDLSTMLayer):
                tmp = m.stateSlice()
                index = 0
                for c in list(self.connections[m]):
                    if isinstance(c.outmod, MDLSTMLayer):
                        self.addConnection(IdentityConnection(tmp, c.outmod.stateSlice(), outSliceFrom=self.hsize * index, outSliceTo=self.hsize * (index + 1)))
                        index += 1
        self.sortModules()


@target('pybrain.structure.networks.convolutional.SimpleConvolutionalNetwork')
class SimpleConvolutionalNetwork:
    def __init__(self, inputdim, insize, convSize, numFeatureMaps, **args):
        FeedForwardNetwork.__init__(self, **args)
        inlayer = LinearLayer(inputdim * insize * insize)
        self.addInputModule(inlayer)
        self._buildStructure(inputdim, insize, inlayer, convSize, numFeatureMaps)
        self.sortModules()

    def _buildStructure(self, inputdim, insize, inlayer, convSize, numFeatureMaps):
        outdim = insize - convSize + 1
        hlayer = TanhLayer(outdim * outdim * numFeatureMaps, name='h')
        self.addModule(hlayer)
        outlayer = SigmoidLayer(outdim * outdim, name='out')
        self.addOutputModule(outlayer)
        convConns = []
        for i in range(convSize):
            convConns.append(MotherConnection(convSize * numFeatureMaps * inputdim, name='conv' + str(i)))
        outConn = MotherConnection(numFeatureMaps)
        for i in range(outdim):
            for j in range(outdim):
                offset = i * outdim + j
                outmod = ModuleSlice(hlayer, inSliceFrom=offset * numFeatureMaps, inSliceTo=(offset + 1) * numFeatureMaps, outSliceFrom=offset * numFeatureMaps, outSliceTo=(offset + 1) * numFeatureMaps)
                self.addConnection(SharedFullConnection(outConn, outmod, outlayer, outSliceFrom=offset, outSliceTo=offset + 1))
                for k, mc in enumerate(convConns):
                    offset = insize * (i + k) + j
                    inmod = ModuleSlice(inlayer, outSliceFrom=offset * inputdim, outSliceTo=offset * inputdim + convSize * inputdim)
                    self.addConnection(SharedFullConnection(mc, inmod, outmod))


@target('pybrain.structure.networks.custom.convboard.ConvolutionalBoardNetwork')
class ConvolutionalBoardNetwork:
    def __init__(self, boardSize, convSize, numFeatureMaps, **args):
        inputdim = 2
        FeedForwardNetwork.__init__(self, **args)
        inlayer = LinearLayer(inputdim * boardSize * boardSize, name='in')
        self.addInputModule(inlayer)
        x = convSize // 2
        insize = boardSize + 2 * x
        if convSize % 2 == 0:
            insize -= 1
        paddedlayer = LinearLayer(inputdim * insize * insize, name='pad')
        self.addModule(paddedlayer)
        bias = BiasUnit()
        self.addModule(bias)
        biasConn = MotherConnection(inputdim)
        paddable = []
        if convSize % 2 == 0:
            xs = list(range(x)) + list(range(insize - x + 1, insize))
        else:
            xs = list(range(x)) + list(range(insize - x, insize))
        paddable.extend(crossproduct([list(range(insize)), xs]))
        paddable.extend(crossproduct([xs, list(range(x, boardSize + x))]))
        for i, j in paddable:
            self.addConnection(SharedFullConnection(biasConn, bias, paddedlayer, outSliceFrom=(i * insize + j) * inputdim, outSliceTo=(i * insize + j + 1) * inputdim))
        for i in range(boardSize):
            inmod = ModuleSlice(inlayer, outSliceFrom=i * boardSize * inputdim, outSliceTo=(i + 1) * boardSize * inputdim)
            outmod = ModuleSlice(paddedlayer, inSliceFrom=((i + x) * insize + x) * inputdim, inSliceTo=((i + x) * insize + x + boardSize) * inputdim)
            self.addConnection(IdentityConnection(inmod, outmod))
        self._buildStructure(inputdim, insize, paddedlayer, convSize, numFeatureMaps)
        self.sortModules()


@target('pybrain.structure.networks.custom.capturegame.CaptureGameNetwork')
class CaptureGameNetwork:
    def __init__(self, **args):
        if 'size' in args:
            self.size = args['size']
        args['dims'] = (self.size, self.size)
        assert self.size > 1, 'Minimal board size is 2.'
        BorderSwipingNetwork.__init__(self, **args)
        if not self.rebuilt:
            self._buildCaptureNetwork()
            self.sortModules()
            self.rebuilt = True
            self.setArgs(rebuilt=True)

    def _buildCaptureNetwork(self):
        inmod = LinearLayer(self.insize * self.size * self.size, name='input')
        inmesh = ModuleMesh.viewOnFlatLayer(inmod, (self.size, self.size), 'inmesh')
        outmod = self.outcomponentclass(self.outputs * self.size * self.size, name='output')
        outmesh = ModuleMesh.viewOnFlatLayer(outmod, (self.size, self.size), 'outmesh')
        if self.componentclass is MDLSTMLayer:
            c = lambda: MDLSTMLayer(self.hsize, 2, self.peepholes).meatSlice()
            hiddenmesh = ModuleMesh(c, (self.size, self.size, 4), 'hidden', baserename=True)
        else:
            hiddenmesh = ModuleMesh.constructWithLayers(self.componentclass, self.hsize, (self.size, self.size, 4), 'hidden')
        self._buildBorderStructure(inmesh, hiddenmesh, outmesh)
        for m in self.modules:
            if isinstance(m, MDLSTMLayer):
                tmp = m.stateSlice()
                index = 0
                for c in list(self.connections[m]):
                    if isinstance(c.outmod, MDLSTMLayer):
                        self.addConnection(IdentityConnection(tmp, c.outmod.stateSlice(), outSliceFrom=self.hsize * index, outSliceTo=self.hsize * (index + 1)))
                        index += 1
        if self.directlink:
            self._buildDirectLink(inmesh, outmesh)
        if self.combinputs > 0:
            cin = LinearLayer(self.combinputs, name='globalin')
            self.addInputModule(cin)
            if 'globalinconn' not in self.predefined:
                self.predefined['globalinconn'] = MotherConnection(cin.outdim * hiddenmesh.componentIndim, name='globalinconn')
            self._linkToAll(cin, hiddenmesh, self.predefined['globalinconn'])

    def _buildDirectLink(self, inmesh, outmesh):
        if not 'directconn' in self.predefined:
            self.predefined['directconn'] = MotherConnection(inmesh.componentOutdim * outmesh.componentIndim, name='directconn')
        for unit in self._iterateOverUnits():
            self.addConnection(SharedFullConnection(self.predefined['directconn'], inmesh[unit], outmesh[unit]))

    def _linkToAll(self, inmod, mesh, conn):
        for c in mesh:
            self.addConnection(SharedFullConnection(conn, inmod, c))

    def resizedTo(self, newsize):
        if newsize == self.size:
            return self.copy()
        else:
            import copy
            for mc in self.motherconnections:
                mc.owner = None
            cdict = copy.deepcopy(self.predefined)
            args = self.argdict.copy()
            args['size'] = newsize
            del args['rebuilt']
            for mc in self.motherconnections:
                mc.owner = self
            return CaptureGameNetwork(predefined=cdict, **args)


@target('pybrain.structure.modules.mdlstm.MDLSTMLayer')
class MDLSTMLayer:
    def meatSlice(self):
        return ModuleSlice(self, inSliceTo=self.dim * (3 + self.dimensions), outSliceTo=self.dim)

    def stateSlice(self):
        return ModuleSlice(self, inSliceFrom=self.dim * (3 + self.dimensions), outSliceFrom=self.dim)

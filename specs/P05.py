

@target('pybrain.structure.modules.module.Module')
class Module:
    def __init__(self, indim, outdim, name=None, **args):
        self.setArgs(name=name, **args)
        self.bufferlist = [] if not self.bufferlist else self.bufferlist
        self.bufferlist += [('inputbuffer', indim), ('inputerror', indim), ('outputbuffer', outdim), ('outputerror', outdim)]
        self.indim = indim
        self.outdim = outdim
        self._resetBuffers()

    def _resetBuffers(self, length=1):
        for buffername, dim in self.bufferlist:
            setattr(self, buffername, zeros((length, dim)))
        if length == 1:
            self.offset = 0

    def _growBuffers(self):
        currentlength = getattr(self, self.bufferlist[0][0]).shape[0]
        tmp = [getattr(self, n) for n, _ in self.bufferlist]
        Module._resetBuffers(self, currentlength * 2)
        for previous, (buffername, _dim) in zip(tmp, self.bufferlist):
            buffer_ = getattr(self, buffername)
            buffer_[:currentlength] = previous

    def forward(self):
        self._forwardImplementation(self.inputbuffer[self.offset], self.outputbuffer[self.offset])

    def backward(self):
        self._backwardImplementation(self.outputerror[self.offset], self.inputerror[self.offset], self.outputbuffer[self.offset], self.inputbuffer[self.offset])

    def reset(self):
        self.offset = 0
        for buffername, l in self.bufferlist:
            buf = getattr(self, buffername)
            buf[:] = zeros(l)

    def shift(self, items):
        if items == 0:
            return
        self.offset += items
        for buffername, _ in self.bufferlist:
            buf = getattr(self, buffername)
            assert abs(items) <= len(buf), 'Cannot shift further than length of buffer.'
            fill = zeros((abs(items), len(buf[0])))
            if items < 0:
                buf[:] = append(buf[-items:], fill, 0)
            else:
                buf[:] = append(fill, buf[0:-items], 0)

    def activateOnDataset(self, dataset):
        dataset.reset()
        self.reset()
        out = zeros((len(dataset), self.outdim))
        for i, sample in enumerate(dataset):
            out[i, :] = self.activate(sample[0])
        self.reset()
        dataset.reset()
        return out

    def activate(self, inpt):
        assert len(self.inputbuffer[self.offset]) == len(inpt), str((len(self.inputbuffer[self.offset]), len(inpt)))
        self.inputbuffer[self.offset] = inpt
        self.forward()
        return self.outputbuffer[self.offset].copy()

    def backActivate(self, outerr):
        self.outputerror[self.offset] = outerr
        self.backward()
        return self.inputerror[self.offset].copy()


@target('pybrain.structure.networks.network.Network')
class Network:
    def _growBuffers(self):
        for m in self.modules:
            m._growBuffers()
        super(Network, self)._growBuffers()

    def reset(self):
        Module.reset(self)
        for m in self.modules:
            m.reset()

    def _resetBuffers(self, length=1):
        super(Network, self)._resetBuffers(length)
        for m in self.modules:
            m._resetBuffers(length)


@target('pybrain.structure.modules.neuronlayer.NeuronLayer')
class NeuronLayer:
    def __init__(self, dim, name=None):
        Module.__init__(self, dim, dim, name=name)
        self.setArgs(dim=dim)

    def whichNeuron(self, inputIndex=None, outputIndex=None):
        if inputIndex is not None:
            return inputIndex
        if outputIndex is not None:
            return outputIndex


@target('pybrain.structure.modules.lstm.LSTMLayer')
class LSTMLayer:
    def __init__(self, dim, peepholes=False, name=None):
        self.setArgs(dim=dim, peepholes=peepholes)
        self.bufferlist = [('ingate', dim), ('outgate', dim), ('forgetgate', dim), ('ingatex', dim), ('outgatex', dim), ('forgetgatex', dim), ('state', dim), ('ingateError', dim), ('outgateError', dim), ('forgetgateError', dim), ('stateError', dim)]
        Module.__init__(self, 4 * dim, dim, name)
        if self.peepholes:
            ParameterContainer.__init__(self, dim * 3)
            self._setParameters(self.params)
            self._setDerivatives(self.derivs)

    def _isLastTimestep(self):
        return self.maxoffset == self.offset


@target('pybrain.structure.modules.mdlstm.MDLSTMLayer')
class MDLSTMLayer:
    def __init__(self, dim, dimensions=1, peepholes=False, name=None):
        self.setArgs(dim=dim, peepholes=peepholes, dimensions=dimensions)
        self.bufferlist = [('ingate', dim), ('outgate', dim), ('forgetgate', dim * dimensions), ('ingatex', dim), ('outgatex', dim), ('forgetgatex', dim * dimensions), ('state', dim), ('ingateError', dim), ('outgateError', dim), ('forgetgateError', dim * dimensions), ('stateError', dim)]
        Module.__init__(self, (3 + 2 * dimensions) * dim, dim * 2, name)
        if self.peepholes:
            ParameterContainer.__init__(self, dim * (2 + dimensions))
            self._setParameters(self.params)
            self._setDerivatives(self.derivs)



@target('pybrain.structure.connections.connection.Connection')
class Connection:
    def __init__(self, inmod, outmod, name=None, inSliceFrom=0, inSliceTo=None, outSliceFrom=0, outSliceTo=None):
        self._name = name
        self.inSliceFrom = inSliceFrom
        self.outSliceFrom = outSliceFrom
        if inSliceTo is not None:
            self.inSliceTo = inSliceTo
        else:
            self.inSliceTo = inmod.outdim
        if outSliceTo is not None:
            self.outSliceTo = outSliceTo
        else:
            self.outSliceTo = outmod.indim
        if isinstance(inmod, ModuleSlice):
            self.inmod = inmod.base
            self.inSliceFrom += inmod.outOffset
            self.inSliceTo += inmod.outOffset
        else:
            self.inmod = inmod
        if isinstance(outmod, ModuleSlice):
            self.outmod = outmod.base
            self.outSliceFrom += outmod.inOffset
            self.outSliceTo += outmod.inOffset
        else:
            self.outmod = outmod
        self.indim = self.inSliceTo - self.inSliceFrom
        self.outdim = self.outSliceTo - self.outSliceFrom
        self.setArgs(inmod=self.inmod, outmod=self.outmod)
        if self.inSliceFrom > 0:
            self.setArgs(inSliceFrom=self.inSliceFrom)
        if self.outSliceFrom > 0:
            self.setArgs(outSliceFrom=self.outSliceFrom)
        if self.inSliceTo < self.inmod.outdim:
            self.setArgs(inSliceTo=self.inSliceTo)
        if self.outSliceTo < self.outmod.indim:
            self.setArgs(outSliceTo=self.outSliceTo)

    def forward(self, inmodOffset=0, outmodOffset=0):
        self._forwardImplementation(self.inmod.outputbuffer[inmodOffset, self.inSliceFrom:self.inSliceTo], self.outmod.inputbuffer[outmodOffset, self.outSliceFrom:self.outSliceTo])

    def backward(self, inmodOffset=0, outmodOffset=0):
        self._backwardImplementation(self.outmod.inputerror[outmodOffset, self.outSliceFrom:self.outSliceTo], self.inmod.outputerror[inmodOffset, self.inSliceFrom:self.inSliceTo], self.inmod.outputbuffer[inmodOffset, self.inSliceFrom:self.inSliceTo])


@target('pybrain.structure.connections.full.FullConnection')
class FullConnection:
    def __init__(self, *args, **kwargs):
        Connection.__init__(self, *args, **kwargs)
        ParameterContainer.__init__(self, self.indim * self.outdim)

    def _forwardImplementation(self, inbuf, outbuf):
        outbuf += dot(reshape(self.params, (self.outdim, self.indim)), inbuf)

    def _backwardImplementation(self, outerr, inerr, inbuf):
        inerr += dot(reshape(self.params, (self.outdim, self.indim)).T, outerr)
        ds = self.derivs
        ds += outer(inbuf, outerr).T.flatten()

    def whichBuffers(self, paramIndex):
        return (paramIndex % self.inmod.outdim, paramIndex // self.inmod.outdim)


@target('pybrain.structure.connections.fullnotself.FullNotSelfConnection')
class FullNotSelfConnection:
    def _forwardImplementation(self, inbuf, outbuf):
        p = reshape(self.params, (self.outdim, self.indim)) * (1 - eye(self.outdim))
        outbuf += dot(p, inbuf)

    def _backwardImplementation(self, outerr, inerr, inbuf):
        p = reshape(self.params, (self.outdim, self.indim)) * (1 - eye(self.outdim))
        inerr += dot(p.T, outerr)
        ds = self.derivs
        ds += (outer(inbuf, outerr).T * (1 - eye(self.outdim))).flatten()


@target('pybrain.structure.connections.identity.IdentityConnection')
class IdentityConnection:
    def _forwardImplementation(self, inbuf, outbuf):
        outbuf += inbuf

    def _backwardImplementation(self, outerr, inerr, inbuf):
        inerr += outerr


@target('pybrain.structure.connections.linear.LinearConnection')
class LinearConnection:
    def __init__(self, inmod, outmod, name=None, inSliceFrom=0, inSliceTo=None, outSliceFrom=0, outSliceTo=None):
        if inSliceTo is None:
            inSliceTo = inmod.outdim
        size = inSliceTo - inSliceFrom
        Connection.__init__(self, inmod, outmod, name, inSliceFrom, inSliceTo, outSliceFrom, outSliceTo)
        ParameterContainer.__init__(self, size)

    def _forwardImplementation(self, inbuf, outbuf):
        outbuf += inbuf * self.params

    def _backwardImplementation(self, outerr, inerr, inbuf):
        inerr += outerr * self.params
        ds = self.derivs
        ds += outerr * inbuf


@target('pybrain.structure.connections.permutation.PermutationConnection')
class PermutationConnection:
    def __init__(self, inmod, outmod, permutation, blocksize, *args, **kwargs):
        Connection.__init__(self, inmod, outmod, *args, **kwargs)
        if self.indim != self.outdim:
            raise ValueError('Indim (%i) does not equal outdim (%i)' % (self.indim, self.outdim))
        if len(permutation) * blocksize != self.indim:
            raise ValueError('Permutation has wrong size: should be %i but is %i.' % (self.indim // blocksize, len(permutation)))
        self.permutation = array(permutation)
        self.invpermutation = argsort(array(permutation))
        self.blocksize = blocksize

    def _forwardImplementation(self, inbuf, outbuf):
        inbuf = inbuf.reshape(self.indim // self.blocksize, self.blocksize)
        inbuf = permute(inbuf, self.permutation)
        inbuf.shape = (self.indim,)
        outbuf += inbuf

    def _backwardImplementation(self, outerr, inerr, inbuf):
        outerr = outerr.reshape(self.indim // self.blocksize, self.blocksize)
        outerr = permute(outerr, self.invpermutation)
        outerr.shape = (self.indim,)
        inerr += outerr


@target('pybrain.structure.connections.shared.SharedConnection')
class SharedConnection:
    def _replaceParamsByMother(self, mother):
        self.setArgs(mother=mother)
        self.paramdim = self.mother.paramdim

    def params(self):
        return self.mother.params

    def derivs(self):
        return self.mother.derivs

    def initParams(self, *args):
        raise OwnershipViolation


@target('pybrain.structure.connections.shared.SharedFullConnection')
class SharedFullConnection:
    def _forwardImplementation(self, inbuf, outbuf):
        FullConnection._forwardImplementation(self, inbuf, outbuf)

    def _backwardImplementation(self, outerr, inerr, inbuf):
        FullConnection._backwardImplementation(self, outerr, inerr, inbuf)


@target('pybrain.structure.connections.shared.SharedSubsamplingConnection')
class SharedSubsamplingConnection:
    def __init__(self, mother, inmod, outmod, **kwargs):
        SubsamplingConnection.__init__(self, inmod, outmod, **kwargs)
        self._replaceParamsByMother(mother)

    def _forwardImplementation(self, inbuf, outbuf):
        SubsamplingConnection._forwardImplementation(self, inbuf, outbuf)


@target('pybrain.structure.connections.subsampling.SubsamplingConnection')
class SubsamplingConnection:
    def __init__(self, inmod, outmod, name=None, inSliceFrom=0, inSliceTo=None, outSliceFrom=0, outSliceTo=None):
        if outSliceTo is None:
            outSliceTo = outmod.indim
        size = outSliceTo - outSliceFrom
        Connection.__init__(self, inmod, outmod, name, inSliceFrom, inSliceTo, outSliceFrom, outSliceTo)
        ParameterContainer.__init__(self, size)

    def _forwardImplementation(self, inbuf, outbuf):
        outbuf += average(inbuf) * self.params


@target('pybrain.structure.connections.shared.MotherConnection')
class MotherConnection:
    def __init__(self, nbparams, **args):
        assert nbparams > 0
        ParameterContainer.__init__(self, nbparams, **args)
        self.setArgs(nbparams=self.paramdim)


@target('pybrain.utilities.permute')
def permute(arr, permutation):
    return array([arr[i] for i in permutation])

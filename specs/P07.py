

@target('pybrain.structure.evolvables.evolvable.Evolvable')
class Evolvable:
    def mutate(self, **args):
        abstractMethod()

    def copy(self):
        return copy.deepcopy(self)

    def randomize(self):
        abstractMethod()

    def newSimilarInstance(self):
        res = self.copy()
        res.randomize()
        return res


@target('pybrain.structure.networks.network.Network')
class Network:
    def copy(self, keepBuffers=False):
        if not keepBuffers:
            self._resetBuffers()
        cp = Evolvable.copy(self)
        if self.paramdim > 0:
            cp._setParameters(self.params.copy())
            cp._setDerivatives(self.derivs.copy())
        return cp


@target('pybrain.structure.evolvables.cheaplycopiable.CheaplyCopiable')
class CheaplyCopiable:
    def __init__(self, module):
        self.__stored = module
        self._params = module.params.copy()
        self.paramdim = module.paramdim
        self.name = module.name + '-COPY'
        self.indim = module.indim
        self.outdim = module.outdim

    def copy(self):
        self.__stored._params[:] = self._params
        cp = CheaplyCopiable(self.__stored)
        return cp

    def convertToFastNetwork(self):
        self.__stored._params[:] = self._params
        cp = CheaplyCopiable(self.__stored.convertToFastNetwork())
        return cp

    def reset(self):
        self.__stored.reset()

    def _resetBuffers(self):
        self.__stored._resetBuffers()

    def forward(self, *args, **kwargs):
        self.__stored._params[:] = self._params
        return self.__stored.forward(*args, **kwargs)

    def backward(self, *args, **kwargs):
        self.__stored._params[:] = self._params
        return self.__stored.backward(*args, **kwargs)

    def activate(self, *args, **kwargs):
        self.__stored._params[:] = self._params
        return self.__stored.activate(*args, **kwargs)

    def backActivate(self, *args, **kwargs):
        self.__stored._params[:] = self._params
        return self.__stored.backActivate(*args, **kwargs)

    def randomize(self, *args, **kwargs):
        ParameterContainer.randomize(self, *args, **kwargs)
        self.__stored._params[:] = self._params

    def mutate(self, *args, **kwargs):
        ParameterContainer.mutate(self, *args, **kwargs)
        self.__stored._params[:] = self._params

    def getBase(self):
        self.__stored._params[:] = self._params
        return self.__stored

    def resetDerivatives(self):
        self.__stored.resetDerivatives()

    def derivs(self):
        return self.__stored.derivs

    def _derivs(self):
        return self.__stored.derivs

    def outputbuffer(self):
        return self.__stored.outputbuffer

    def inputerror(self):
        return self.__stored.inputerror

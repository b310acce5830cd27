"""Layer transformations and their exact gradients."""
from scipy import tanh, zeros
from scipy import tanh, zeros, exp, clip
from pybrain.tools.functions import sigmoid, sigmoidPrime, tanhPrime, safeExp


@target('pybrain.structure.modules.linearlayer.LinearLayer')
class LinearLayer:
    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[:] = inbuf

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        inerr[:] = outerr


@target('pybrain.structure.modules.sigmoidlayer.SigmoidLayer')
class SigmoidLayer:
    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[:] = sigmoid(inbuf)

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        inerr[:] = outbuf * (1 - outbuf) * outerr


@target('pybrain.structure.modules.tanhlayer.TanhLayer')
class TanhLayer:
    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[:] = tanh(inbuf)

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        inerr[:] = (1 - outbuf * outbuf) * outerr


@target('pybrain.structure.modules.softsign.SoftSignLayer')
class SoftSignLayer:
    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[:] = inbuf / (1 + abs(inbuf))

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        inerr[:] = (1 - abs(outbuf)) ** 2 * outerr


@target('pybrain.structure.modules.relulayer.ReluLayer')
class ReluLayer:
    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[:] = inbuf * (inbuf > 0)

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        inerr[:] = outerr * (inbuf > 0)


@target('pybrain.structure.modules.gate.MultiplicationLayer')
class MultiplicationLayer:
    def _forwardImplementation(self, inbuf, outbuf):
        outbuf += inbuf[:self.outdim] * inbuf[self.outdim:]

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        inerr[:self.outdim] += inbuf[self.outdim:] * outerr
        inerr[self.outdim:] += inbuf[:self.outdim] * outerr


@target('pybrain.structure.modules.gate.GateLayer')
class GateLayer:
    def _forwardImplementation(self, inbuf, outbuf):
        outbuf += sigmoid(inbuf[:self.outdim]) * inbuf[self.outdim:]

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        inerr[:self.outdim] += sigmoidPrime(inbuf[:self.outdim]) * inbuf[self.outdim:] * outerr
        inerr[self.outdim:] += sigmoid(inbuf[:self.outdim]) * outerr


@target('pybrain.structure.modules.gate.DoubleGateLayer')
class DoubleGateLayer:
    def _forwardImplementation(self, inbuf, outbuf):
        dim = self.indim // 2
        outbuf[:dim] += sigmoid(inbuf[:dim]) * inbuf[dim:]
        outbuf[dim:] += (1 - sigmoid(inbuf[:dim])) * inbuf[dim:]

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        dim = self.indim // 2
        gate, val = inbuf[:dim], inbuf[dim:]
        inerr[:dim] += sigmoidPrime(gate) * val * (outerr[:dim] - outerr[dim:])
        inerr[dim:] += sigmoid(gate) * outerr[:dim] + (1 - sigmoid(gate)) * outerr[dim:]


@target('pybrain.structure.modules.gate.SwitchLayer')
class SwitchLayer:
    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[:self.indim] += sigmoid(inbuf)
        outbuf[self.indim:] += 1 - sigmoid(inbuf)

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        inerr += sigmoidPrime(inbuf) * (outerr[:self.indim] - outerr[self.indim:])


@target('pybrain.structure.modules.lstm.LSTMLayer')
@arrays('ingatePeepWeights', 'forgetgatePeepWeights', 'outgatePeepWeights', 'ingatePeepDerivs', 'forgetgatePeepDerivs', 'outgatePeepDerivs',
        'ingate', 'outgate', 'forgetgate', 'ingatex', 'outgatex', 'forgetgatex', 'state', 'ingateError', 'outgateError', 'forgetgateError', 'stateError')
class LSTMLayer:
    def _setParameters(self, p, owner=None):
        ParameterContainer._setParameters(self, p, owner)
        dim = self.outdim
        self.ingatePeepWeights = self.params[:dim]
        self.forgetgatePeepWeights = self.params[dim:2 * dim]
        self.outgatePeepWeights = self.params[2 * dim:]

    def _setDerivatives(self, d, owner=None):
        ParameterContainer._setDerivatives(self, d, owner)
        dim = self.outdim
        self.ingatePeepDerivs = self.derivs[:dim]
        self.forgetgatePeepDerivs = self.derivs[dim:2 * dim]
        self.outgatePeepDerivs = self.derivs[2 * dim:]

    @skip('raises')
    def _forwardImplementation(self, inbuf, outbuf):
        self.maxoffset = max(self.offset + 1, self.maxoffset)
        t = self.offset
        dim = self.outdim
        self.ingatex[t] = inbuf[:dim]
        self.forgetgatex[t] = inbuf[dim:2 * dim]
        cellx = inbuf[2 * dim:3 * dim]
        self.outgatex[t] = inbuf[3 * dim:]
        if self.peepholes and t > 0:
            self.ingatex[t] += self.ingatePeepWeights * self.state[t - 1]
            self.forgetgatex[t] += self.forgetgatePeepWeights * self.state[t - 1]
        self.ingate[t] = sigmoid(self.ingatex[t])
        self.forgetgate[t] = sigmoid(self.forgetgatex[t])
        self.state[t] = self.ingate[t] * tanh(cellx)
        if t > 0:
            self.state[t] += self.forgetgate[t] * self.state[t - 1]
        if self.peepholes:
            self.outgatex[t] += self.outgatePeepWeights * self.state[t]
        self.outgate[t] = sigmoid(self.outgatex[t])
        outbuf[:] = self.outgate[t] * tanh(self.state[t])

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        dim = self.outdim
        t = self.offset
        cellx = inbuf[2 * dim:3 * dim]
        oe = sigmoidPrime(self.outgatex[t]) * outerr * tanh(self.state[t])
        se = outerr * self.outgate[t] * tanhPrime(self.state[t])
        if self.maxoffset != t:
            se = se + self.stateError[t + 1] * self.forgetgate[t + 1]
            if self.peepholes:
                se = se + self.ingateError[t + 1] * self.ingatePeepWeights + self.forgetgateError[t + 1] * self.forgetgatePeepWeights
        if self.peepholes:
            se = se + oe * self.outgatePeepWeights
        self.outgateError[t] = oe
        self.stateError[t] = se
        ce = self.ingate[t] * tanhPrime(cellx) * se
        if t > 0:
            self.forgetgateError[t] = sigmoidPrime(self.forgetgatex[t]) * se * self.state[t - 1]
        self.ingateError[t] = sigmoidPrime(self.ingatex[t]) * se * tanh(cellx)
        if self.peepholes:
            self.outgatePeepDerivs += oe * self.state[t]
            if t > 0:
                self.ingatePeepDerivs += self.ingateError[t] * self.state[t - 1]
                self.forgetgatePeepDerivs += self.forgetgateError[t] * self.state[t - 1]
        inerr[:dim] = self.ingateError[t]
        inerr[dim:2 * dim] = self.forgetgateError[t]
        inerr[2 * dim:3 * dim] = ce
        inerr[3 * dim:] = oe


@target('pybrain.structure.modules.mdlstm.MDLSTMLayer')
@arrays('ingatePeepWeights', 'forgetgatePeepWeights', 'outgatePeepWeights', 'ingatePeepDerivs', 'forgetgatePeepDerivs', 'outgatePeepDerivs',
        'ingate', 'outgate', 'forgetgate', 'ingatex', 'outgatex', 'forgetgatex', 'state', 'ingateError', 'outgateError', 'forgetgateError', 'stateError')
class MDLSTMLayer:
    def _setParameters(self, p, owner=None):
        ParameterContainer._setParameters(self, p, owner)
        n = self.dim
        self.ingatePeepWeights = self.params[:n]
        self.forgetgatePeepWeights = self.params[n:n * (1 + self.dimensions)]
        self.outgatePeepWeights = self.params[n * (1 + self.dimensions):]

    def _setDerivatives(self, d, owner=None):
        ParameterContainer._setDerivatives(self, d, owner)
        n = self.dim
        self.ingatePeepDerivs = self.derivs[:n]
        self.forgetgatePeepDerivs = self.derivs[n:n * (1 + self.dimensions)]
        self.outgatePeepDerivs = self.derivs[n * (1 + self.dimensions):]

    def _forwardImplementation(self, inbuf, outbuf):
        self.maxoffset = max(self.offset + 1, self.maxoffset)
        n = self.dim
        d = self.dimensions
        t = self.offset
        self.ingatex[t] = inbuf[:n]
        self.forgetgatex[t] = inbuf[n:n * (1 + d)]
        cellx = inbuf[n * (1 + d):n * (2 + d)]
        self.outgatex[t] = inbuf[n * (2 + d):n * (3 + d)]
        last = inbuf[n * (3 + d):]
        if self.peepholes:
            for i in range(d):
                self.ingatex[t] += self.ingatePeepWeights * last[n * i:n * (i + 1)]
            self.forgetgatex[t] += self.forgetgatePeepWeights * last
        self.ingate[t] = sigmoid(self.ingatex[t])
        self.forgetgate[t] = sigmoid(self.forgetgatex[t])
        self.state[t] = self.ingate[t] * tanh(cellx)
        for i in range(d):
            self.state[t] += self.forgetgate[t, n * i:n * (i + 1)] * last[n * i:n * (i + 1)]
        if self.peepholes:
            self.outgatex[t] += self.outgatePeepWeights * self.state[t]
        self.outgate[t] = sigmoid(self.outgatex[t])
        outbuf[:n] = self.outgate[t] * tanh(self.state[t])
        outbuf[n:] = self.state[t]

    def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
        n = self.dim
        d = self.dimensions
        t = self.offset
        cellx = inbuf[n * (1 + d):n * (2 + d)]
        last = inbuf[n * (3 + d):]
        oute = outerr[:n]
        self.outgateError[t] = sigmoidPrime(self.outgatex[t]) * oute * tanh(self.state[t])
        self.stateError[t] = oute * self.outgate[t] * tanhPrime(self.state[t]) + outerr[n:]
        if self.peepholes:
            self.stateError[t] += self.outgateError[t] * self.outgatePeepWeights
        ce = self.ingate[t] * tanhPrime(cellx) * self.stateError[t]
        for i in range(d):
            self.forgetgateError[t, n * i:n * (i + 1)] = (sigmoidPrime(self.forgetgatex[t, n * i:n * (i + 1)])
                                                          * self.stateError[t] * last[n * i:n * (i + 1)])
        self.ingateError[t] = sigmoidPrime(self.ingatex[t]) * self.stateError[t] * tanh(cellx)
        if self.peepholes:
            self.outgatePeepDerivs += self.outgateError[t] * self.state[t]
            for i in range(d):
                self.ingatePeepDerivs += self.ingateError[t] * last[n * i:n * (i + 1)]
                self.forgetgatePeepDerivs[n * i:n * (i + 1)] += (self.forgetgateError[t, n * i:n * (i + 1)]
                                                                 * last[n * i:n * (i + 1)])
        ise = zeros((n * d))
        for i in range(d):
            ise[n * i:n * (i + 1)] = self.stateError[t] * self.forgetgate[t, n * i:n * (i + 1)]
            if self.peepholes:
                ise[n * i:n * (i + 1)] += self.ingateError[t] * self.ingatePeepWeights
                ise[n * i:n * (i + 1)] += self.forgetgateError[t, n * i:n * (i + 1)] * self.forgetgatePeepWeights[n * i:n * (i + 1)]
        inerr[:n] = self.ingateError[t]
        inerr[n:n * (1 + d)] = self.forgetgateError[t]
        inerr[n * (1 + d):n * (2 + d)] = ce
        inerr[n * (2 + d):n * (3 + d)] = self.outgateError[t]
        inerr[n * (3 + d):] = ise


@target('pybrain.tools.functions.sigmoid')
@inline('safeExp')
def sigmoid(x):
    return 1. / (1. + safeExp(-x))


@target('pybrain.tools.functions.sigmoidPrime')
def sigmoidPrime(x):
    return sigmoid(x) * (1 - sigmoid(x))


@target('pybrain.tools.functions.tanhPrime')
def tanhPrime(x):
    return 1 - tanh(x) * tanh(x)


@target('pybrain.tools.functions.safeExp')
def safeExp(x):
    return exp(clip(x, -500, 500))

seed('softsign-negative-slope', 'P01', [('structure/modules/softsign.py', '(1 - abs(outbuf))**2', '(1 - outbuf)**2')], '''
from numpy import array, allclose
from pybrain.structure.modules.softsign import SoftSignLayer
l = SoftSignLayer(2)
l.activate(array([0.5, -0.5]))
e = l.backActivate(array([1., 1.]))
assert allclose(e, [1 / 1.5 ** 2] * 2), e
''', 'a negative input to a softsign layer', 'the gradient of softsign is wrong for negative inputs')

seed('backward-input-offset', 'P02', [('structure/connections/connection.py', '''            self.inmod.outputerror[inmodOffset, self.inSliceFrom:self.inSliceTo],
            self.inmod.outputbuffer[inmodOffset, self.inSliceFrom:self.inSliceTo])''', '''            self.inmod.outputerror[inmodOffset, self.inSliceFrom:self.inSliceTo],
            self.inmod.outputbuffer[min(inmodOffset, outmodOffset), self.inSliceFrom:self.inSliceTo])''')], '''
from numpy import array, allclose
from pybrain.structure import LinearLayer, FullConnection
a, b = LinearLayer(4), LinearLayer(1)
c = FullConnection(a, b, inSliceFrom=2)
a._growBuffers()
a.outputbuffer[1] = [1., 2., 3., 4.]
b.inputerror[0] = [1.]
c.derivs[:] = 0
c.backward(1, 0)
assert allclose(c.derivs, [3., 4.]), c.derivs
''', 'a backward pass whose sender time offset lies after the receiver offset (swapped or backward-in-time wiring)', 'weight derivatives are computed with the wrong inputs')

seed('slice-out-end', 'P02', [('structure/connections/connection.py', '''            self.outSliceFrom += outmod.inOffset
            self.outSliceTo += outmod.inOffset
''', '''            self.outSliceFrom += outmod.inOffset
            if outSliceTo is None:
                self.outSliceTo += outmod.inOffset
''')], '''
from pybrain.structure import LinearLayer, IdentityConnection
from pybrain.structure.moduleslice import ModuleSlice
b = LinearLayer(5)
s = ModuleSlice(b, inSliceFrom=2, inSliceTo=5)
c = IdentityConnection(LinearLayer(2), s, outSliceFrom=0, outSliceTo=2)
assert (c.outSliceFrom, c.outSliceTo) == (2, 4), (c.outSliceFrom, c.outSliceTo)
assert c.outdim == 2
''', 'an explicit outSliceTo on a connection into a module slice with an offset', 'the connection addresses the wrong positions of the sliced base module')

seed('lstm-peephole-first-step', 'P01', [('structure/modules/lstm.py', '''            self.outgatePeepDerivs += self.outgateError[self.offset] * self.state[self.offset]
            if self.offset > 0:''', '''            if self.offset > 0:
                self.outgatePeepDerivs += self.outgateError[self.offset] * self.state[self.offset]''')], '''
from numpy import array, allclose
from pybrain.structure import LSTMLayer
l = LSTMLayer(1, peepholes=True)
l.params[:] = [.3, .2, .1]
l.derivs[:] = 0
l.sequential = True
x = array([.3, -.4, .8, .5])
def f(w):
    l.reset(); l.params[2] = w
    return l.activate(x)[0]
e = 1e-5
num = (f(.1 + e) - f(.1 - e)) / (2 * e)
l._growBuffers(); l.reset(); l.params[2] = .1
l.derivs[:] = 0
l.inputbuffer[0] = x
l.forward()
l.outputerror[0] = [1.]
l.offset = 0
l.backward()
assert abs(l.derivs[2] - num) < 1e-6, (l.derivs, num)
''', 'peephole weights and a sequence of length one (the first time step)', 'the output-gate peephole derivative of the first time step is lost')



@target('pybrain.auxiliary.gradientdescent.GradientDescent')
class GradientDescent:
    def __init__(self):
        self.alpha = 0.1
        self.alphadecay = 1.0
        self.momentum = 0.0
        self.momentumvector = None
        self.rprop = False
        self.deltamax = 5.0
        self.deltamin = 0.01
        self.deltanull = 0.1
        self.etaplus = 1.2
        self.etaminus = 0.5
        self.lastgradient = None

    def init(self, values):
        assert isinstance(values, ndarray)
        self.values = values.copy()
        if self.rprop:
            self.lastgradient = zeros(len(values), dtype='float64')
            self.rprop_theta = self.lastgradient + self.deltanull
            self.momentumvector = None
        else:
            self.lastgradient = None
            self.momentumvector = zeros(len(values))

    def __call__(self, gradient, error=None):
        assert len(gradient) == len(self.values)
        gradient_arr = asarray(gradient)
        if self.rprop:
            rprop_theta = self.rprop_theta
            self.values += sign(gradient_arr) * rprop_theta
            dirSwitch = self.lastgradient * gradient_arr
            rprop_theta[dirSwitch > 0] *= self.etaplus
            idx = dirSwitch < 0
            rprop_theta[idx] *= self.etaminus
            gradient_arr[idx] = 0
            rprop_theta = rprop_theta.clip(min=self.deltamin, max=self.deltamax)
            self.lastgradient = gradient_arr.copy()
            self.rprop_theta = rprop_theta
        else:
            self.momentumvector *= self.momentum
            self.momentumvector += self.alpha * gradient_arr
            self.alpha *= self.alphadecay
            self.values += self.momentumvector
        return self.values

    def __call__(self, gradient, error=None):
        assert len(gradient) == len(self.values)
        gradient_arr = asarray(gradient)
        if self.rprop:
            rprop_theta = self.rprop_theta
            self.values += sign(gradient_arr) * rprop_theta
            dirSwitch = self.lastgradient * gradient_arr
            rprop_theta[dirSwitch > 0] *= self.etaplus
            idx = dirSwitch < 0
            rprop_theta[idx] *= self.etaminus
            gradient_arr[idx] = 0
            rprop_theta = rprop_theta.clip(min=self.deltamin, max=self.deltamax)
            self.lastgradient = gradient_arr.copy()
            self.rprop_theta = rprop_theta
        else:
            self.momentumvector *= self.momentum
            self.momentumvector += self.alpha * gradient_arr
            self.alpha *= self.alphadecay
            self.values += self.momentumvector
        return self.values


@target('pybrain.auxiliary.gradientdescent.NaturalGradient')
class NaturalGradient:
    def __init__(self, samplesize):
        self.samplesize = samplesize
        self.samples = []

    def init(self, values):
        self.values = values.copy()

    def __call__(self, gradient, error=None):
        self.samples.append(array(gradient))
        if len(self.samples) < self.samplesize:
            return None
        gradientarray = array(self.samples).T
        self.samples = []
        inv_covar = inv(cov(gradientarray))
        self.values += dot(inv_covar, gradientarray.sum(axis=1))
        return self.values

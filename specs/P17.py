

@target('pybrain.supervised.trainers.trainer.Trainer')
class Trainer:
    def __init__(self, module):
        self.module = module

    def setData(self, dataset):
        self.ds = dataset
        if dataset:
            assert dataset.indim == self.module.indim
            assert dataset.outdim == self.module.outdim

    def trainOnDataset(self, dataset, *args, **kwargs):
        self.setData(dataset)
        self.trainEpochs(*args, **kwargs)

    def trainEpochs(self, epochs=1, *args, **kwargs):
        for dummy in range(epochs):
            self.train(*args, **kwargs)

    def train(self):
        abstractMethod()


@target('pybrain.supervised.trainers.backprop.BackpropTrainer')
class BackpropTrainer:
    def __init__(self, module, dataset=None, learningrate=0.01, lrdecay=1.0, momentum=0.0, verbose=False, batchlearning=False, weightdecay=0.0):
        Trainer.__init__(self, module)
        self.setData(dataset)
        self.verbose = verbose
        self.batchlearning = batchlearning
        self.weightdecay = weightdecay
        self.epoch = 0
        self.totalepochs = 0
        self.descent = GradientDescent()
        self.descent.alpha = learningrate
        self.descent.momentum = momentum
        self.descent.alphadecay = lrdecay
        self.descent.init(module.params)

    def train(self):
        assert len(self.ds) > 0, 'Dataset cannot be empty.'
        self.module.resetDerivatives()
        errors = 0
        ponderation = 0.0
        shuffledSequences = []
        for seq in self.ds._provideSequences():
            shuffledSequences.append(seq)
        shuffle(shuffledSequences)
        for seq in shuffledSequences:
            e, p = self._calcDerivs(seq)
            errors += e
            ponderation += p
            if not self.batchlearning:
                gradient = self.module.derivs - self.weightdecay * self.module.params
                new = self.descent(gradient, errors)
                if new is not None:
                    self.module.params[:] = new
                self.module.resetDerivatives()
        if self.verbose:
            print('Total error: {z: .12g}'.format(z=errors / ponderation))
        if self.batchlearning:
            gradient = self.module.derivs - self.weightdecay * self.module.params
            self.module._setParameters(self.descent(gradient))
        self.epoch += 1
        self.totalepochs += 1
        return errors / ponderation

    def _calcDerivs(self, seq):
        self.module.reset()
        for sample in seq:
            self.module.activate(sample[0])
        error = 0
        ponderation = 0.0
        for offset, sample in reversed(list(enumerate(seq))):
            target = sample[1]
            outerr = target - self.module.outputbuffer[offset]
            if len(sample) > 2:
                importance = sample[2]
                error += 0.5 * dot(importance, outerr ** 2)
                ponderation += sum(importance)
                self.module.backActivate(outerr * importance)
            else:
                error += 0.5 * sum(outerr ** 2)
                ponderation += len(target)
                str(outerr)
                self.module.backActivate(outerr)
        return (error, ponderation)


@target('pybrain.supervised.trainers.rprop.RPropMinusTrainer')
class RPropMinusTrainer:
    def __init__(self, module, etaminus=0.5, etaplus=1.2, deltamin=1e-06, deltamax=5.0, delta0=0.1, **kwargs):
        BackpropTrainer.__init__(self, module, **kwargs)
        self.epoch = 0
        self.descent.rprop = True
        self.descent.etaplus = etaplus
        self.descent.etaminus = etaminus
        self.descent.deltamin = deltamin
        self.descent.deltamax = deltamax
        self.descent.deltanull = delta0
        self.descent.init(module.params)

    def train(self):
        self.module.resetDerivatives()
        errors = 0
        ponderation = 0
        for seq in self.ds._provideSequences():
            e, p = self._calcDerivs(seq)
            errors += e
            ponderation += p
        if self.verbose:
            print('epoch {epoch:6d}  total error {error:12.5g}   avg weight  {weight:12.5g}'.format(epoch=self.epoch, error=errors / ponderation, weight=sqrt((self.module.params ** 2).mean())))
        self.module._setParameters(self.descent(self.module.derivs - self.weightdecay * self.module.params))
        self.epoch += 1
        self.totalepochs += 1
        return errors / ponderation


@target('pybrain.supervised.trainers.mixturedensity.BackpropTrainerMix')
class BackpropTrainerMix:
    def setData(self, dataset):
        self.ds = dataset
        if dataset:
            assert dataset.indim == self.module.indim
            assert dataset.outdim == self.module.modulesSorted[-1].nDims

    def _calcDerivs(self, seq):
        assert isinstance(self.module.modulesSorted[-1], MixtureDensityLayer)
        self.module.reset()
        for time, sample in enumerate(seq):
            input = sample[0]
            self.module.inputbuffer[time] = input
            self.module.forward()
        error = 0
        nDims = self.module.modulesSorted[-1].nDims
        nGauss = self.module.modulesSorted[-1].nGaussians
        for time, sample in reversed(list(enumerate(seq))):
            gamma = []
            means = []
            stddevs = []
            dummy, target = sample
            par = self.module.outputbuffer[time]
            for k in range(nGauss):
                coeff = par[k]
                stddevs.append(par[k + nGauss])
                idxm = 2 * nGauss + k * nDims
                means.append(par[idxm:idxm + nDims])
                gamma.append(coeff * gaussian(target, means[-1], stddevs[-1]))
            sumg = sum(gamma)
            error -= np.log(sumg)
            gamma = np.array(gamma) / sumg
            invvariance = 1.0 / par[nGauss:2 * nGauss] ** 2
            invstddev = 1.0 / np.array(stddevs)
            grad_c = par[0:nGauss] - gamma
            grad_m = []
            grad_s = []
            for k in range(nGauss):
                delta = means[k] - target
                grad_m.append(gamma[k] * delta * invvariance[k])
                grad_s.append(-gamma[k] * (np.dot(delta, delta) * invvariance[k] * invstddev[k] - invstddev[k]))
            self.module.outputerror[time] = -np.r_[grad_c, grad_s, np.array(grad_m).flatten()]
            self.module.backward()
        return (error, 1.0)


@target('pybrain.supervised.trainers.mixturedensity.gaussian')
def gaussian(x, mean, stddev):
    tmp = -0.5 * sum(((x - mean) / stddev) ** 2)
    return np.exp(tmp) / (np.power(2.0 * np.pi, 0.5 * len(x)) * stddev)

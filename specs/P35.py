

@target('pybrain.unsupervised.trainers.rbm.RbmGibbsTrainerConfig')
class RbmGibbsTrainerConfig:
    def __init__(self):
        self.batchSize = 10
        self.rWeights = 0.1
        self.rHidBias = 0.1
        self.rVisBias = 0.1
        self.weightCost = 0.0002
        self.iniMm = 0.5
        self.finMm = 0.9
        self.mmSwitchIter = 5
        self.maxIter = 9
        self.visibleDistribution = 'bernoulli'


@arrays('biasParams')
@target('pybrain.unsupervised.trainers.rbm.RbmGibbsTrainer')
class RbmGibbsTrainer:
    def __init__(self, rbm, dataset, cfg=None):
        self.rbm = rbm
        self.invRbm = rbm.invert()
        self.dataset = dataset
        self.cfg = RbmGibbsTrainerConfig() if cfg is None else cfg
        if isinstance(self.dataset, SupervisedDataSet):
            self.datasetField = 'input'
        elif isinstance(self.dataset, UnsupervisedDataSet):
            self.datasetField = 'sample'

    def train(self):
        self.trainOnDataset(self.dataset)

    def trainOnDataset(self, dataset):
        cfg = self.cfg
        for rows in dataset.randomBatches(self.datasetField, cfg.batchSize):
            olduw, olduhb, olduvb = (zeros((self.rbm.visibleDim, self.rbm.hiddenDim)), zeros(self.rbm.hiddenDim), zeros(self.rbm.visibleDim))
            for t in range(cfg.maxIter):
                params = self.rbm.params
                params = params.reshape((self.rbm.hiddenDim, self.rbm.visibleDim)).T
                biasParams = self.rbm.biasParams
                mm = cfg.iniMm if t < cfg.mmSwitchIter else cfg.finMm
                w, hb, vb = self.calcUpdateByRows(rows)
                olduw = uw = olduw * mm + cfg.rWeights * (w - cfg.weightCost * params)
                olduhb = uhb = olduhb * mm + cfg.rHidBias * hb
                olduvb = uvb = olduvb * mm + cfg.rVisBias * vb
                params += uw
                biasParams += uhb
                invBiasParams = self.invRbm.biasParams
                invBiasParams += uvb
                self.invRbm = self.rbm.invert()
                self.invRbm.biasParams[:] = invBiasParams

    def calcUpdateByRow(self, row):
        poshp = self.rbm.activate(row)
        pos = outer(row, poshp)
        poshb = poshp
        posvb = row
        sampled = self.sampler(poshp)
        recon = self.invRbm.activate(sampled)
        neghp = self.rbm.activate(recon)
        neg = outer(recon, neghp)
        neghb = neghp
        negvb = recon
        return self.updater(pos, neg, poshb, neghb, posvb, negvb)

    def sampler(self, probabilities):
        abstractMethod()

    def updater(self, pos, neg, poshb, neghb, posvb, negvb):
        abstractMethod()

    def calcUpdateByRows(self, rows):
        delta_w, delta_hb, delta_vb = (zeros((self.rbm.visibleDim, self.rbm.hiddenDim)), zeros(self.rbm.hiddenDim), zeros(self.rbm.visibleDim))
        for row in rows:
            dw, dhb, dvb = self.calcUpdateByRow(row)
            delta_w += dw
            delta_hb += dhb
            delta_vb += dvb
        delta_w /= len(rows)
        delta_hb /= len(rows)
        delta_vb /= len(rows)
        return (delta_w, delta_hb, delta_vb)


@target('pybrain.unsupervised.trainers.rbm.RbmBernoulliTrainer')
class RbmBernoulliTrainer:
    def sampler(self, probabilities):
        result = probabilities > random.rand(self.rbm.hiddenDim)
        return result.astype('int32')

    def updater(self, pos, neg, poshb, neghb, posvb, negvb):
        return (pos - neg, poshb - neghb, posvb - negvb)


@target('pybrain.unsupervised.trainers.rbm.RbmGaussTrainer')
class RbmGaussTrainer:
    def __init__(self, rbm, dataset, cfg=None):
        super(RbmGaussTrainer, self).__init__(rbm, dataset, cfg)
        self.visibleVariances = ones(rbm.net.outdim)

    def sampler(self, probabilities):
        return random.normal(probabilities, self.visibleVariances)

    def updater(self, pos, neg, poshb, neghb, posvb, negvb):
        pos = pos / self.visibleVariances
        return (pos - neg, poshb - neghb, posvb - negvb)


@target('pybrain.unsupervised.trainers.deepbelief.DeepBeliefTrainer')
class DeepBeliefTrainer:
    def __init__(self, net, dataset, epochs=50, cfg=None, distribution='bernoulli'):
        if isinstance(dataset, SupervisedDataSet):
            self.datasetfield = 'input'
        elif isinstance(dataset, UnsupervisedDataSet):
            self.datasetfield = 'sample'
        else:
            raise ValueError('Wrong dataset class.')
        self.net = net
        self.net.sortModules()
        self.dataset = dataset
        self.epochs = epochs
        self.cfg = cfg
        self.trainerKlass = self.trainers[distribution]

    def trainRbm(self, rbm, dataset):
        trainer = self.trainerKlass(rbm, dataset, self.cfg)
        for _ in range(self.epochs):
            trainer.train()
        return rbm

    def iterRbms(self):
        layers = [i for i in self.net.modulesSorted if isinstance(i, NeuronLayer) and (not isinstance(i, BiasUnit))]
        bias = [i for i in self.net.modulesSorted if isinstance(i, BiasUnit)][0]
        layercons = (self.net.connections[i][0] for i in layers)
        biascons = self.net.connections[bias]
        biascons.sort(key=lambda c: layers.index(c.outmod))
        modules = list(zip(layers, layers[1:], layercons, biascons))
        for visible, hidden, layercon, biascon in modules:
            rbm = Rbm.fromModules(visible, hidden, bias, layercon, biascon)
            yield rbm

    def train(self):
        dataset = self.dataset
        piecenet = FeedForwardNetwork()
        visible = copy.deepcopy(self.net.inmodules[0])
        piecenet.addInputModule(visible)
        bias = BiasUnit()
        piecenet.addModule(bias)
        self.invRbms = []
        self.rbms = []
        for rbm in self.iterRbms():
            self.net.sortModules()
            trainer = self.trainerKlass(rbm, dataset, self.cfg)
            for _ in range(self.epochs):
                trainer.train()
            self.invRbms.append(trainer.invRbm)
            self.rbms.append(rbm)
            hidden = copy.deepcopy(rbm.hidden)
            biascon = FullConnection(bias, hidden)
            biascon.params[:] = rbm.biasParams
            con = FullConnection(visible, hidden)
            con.params[:] = rbm.params
            piecenet.addConnection(biascon)
            piecenet.addConnection(con)
            piecenet.addModule(hidden)
            piecenet.outmodules = [hidden]
            piecenet.outdim = rbm.hiddenDim
            piecenet.sortModules()
            dataset = UnsupervisedDataSet(rbm.hiddenDim)
            for sample in self.dataset[self.datasetfield]:
                new_sample = piecenet.activate(sample)
                dataset.addSample(new_sample)
            visible = hidden
        for container in self.net._containerIterator():
            container.owner = self.net
        self.net.sorted = False
        self.net.sortModules()


@target('pybrain.structure.networks.rbm.Rbm')
class Rbm:
    def __init__(self, net):
        self.net = net
        self.net.sortModules()
        self.bias = [i for i in self.net.modules if isinstance(i, BiasUnit)][0]
        self.biascon = self.net.connections[self.bias][0]
        self.visible = net.inmodules[0]
        self.hidden = net.outmodules[0]
        self.con = self.net.connections[self.visible][0]

    @classmethod
    def fromDims(cls, visibledim, hiddendim, params=None, biasParams=None):
        net = FeedForwardNetwork()
        bias = BiasUnit('bias')
        visible = LinearLayer(visibledim, 'visible')
        hidden = SigmoidLayer(hiddendim, 'hidden')
        con1 = FullConnection(visible, hidden)
        con2 = FullConnection(bias, hidden)
        if params is not None:
            con1.params[:] = params
        if biasParams is not None:
            con2.params[:] = biasParams
        net.addInputModule(visible)
        net.addModule(bias)
        net.addOutputModule(hidden)
        net.addConnection(con1)
        net.addConnection(con2)
        net.sortModules()
        return cls(net)

    @classmethod
    def fromModules(cls, visible, hidden, bias, con, biascon):
        net = FeedForwardNetwork()
        net.addInputModule(visible)
        net.addModule(bias)
        net.addOutputModule(hidden)
        net.addConnection(con)
        net.addConnection(biascon)
        net.sortModules()
        return cls(net)

    def invert(self):
        params = self.params.reshape((self.hiddenDim, self.visibleDim)).T.flatten()
        return self.__class__.fromDims(self.hiddenDim, self.visibleDim, params=params)

    def activate(self, inpt):
        return self.net.activate(inpt)

    def params(self):
        return self.con.params
        pass

    def biasParams(self):
        return self.biascon.params

    def visibleDim(self):
        return self.net.indim

    def hiddenDim(self):
        return self.net.outdim



@target('pybrain.datasets.dataset.DataSet')
class DataSet:
    def __init__(self):
        self.data = {}
        self.endmarker = {}
        self.link = []
        self.index = 0
        self.vectorformat = 'none'

    def addField(self, label, dim):
        self.data[label] = zeros((0, dim), float)
        self.endmarker[label] = 0

    def setField(self, label, arr):
        as_arr = asarray(arr)
        self.data[label] = as_arr
        self.endmarker[label] = as_arr.shape[0]

    def linkFields(self, linklist):
        length = self[linklist[0]].shape[0]
        for l in linklist:
            if self[l].shape[0] != length:
                raise OutOfSyncError
        self.link = linklist

    def unlinkFields(self, unlinklist=None):
        link = self.link
        if unlinklist is not None:
            for l in unlinklist:
                if l in self.link:
                    link.remove(l)
            self.link = link
        else:
            self.link = []

    def getDimension(self, label):
        try:
            dim = self.data[label].shape[1]
        except KeyError:
            raise KeyError('dataset field %s not found.' % label)
        return dim

    def __len__(self):
        return self.getLength()

    def _resize(self, label=None):
        if label:
            label = [label]
        elif self.link:
            label = self.link
        else:
            label = self.data
        for l in label:
            self.data[l] = self._resizeArray(self.data[l])

    def _resizeArray(self, a):
        shape = list(a.shape)
        shape[0] = (shape[0] + 1) * 2
        return resize(a, shape)

    def _appendUnlinked(self, label, row):
        if self.data[label].shape[0] <= self.endmarker[label]:
            self._resize(label)
        self.data[label][self.endmarker[label], :] = row
        self.endmarker[label] += 1

    def append(self, label, row):
        if label in self.link:
            raise OutOfSyncError
        self._appendUnlinked(label, row)

    def appendLinked(self, *args):
        assert len(args) == len(self.link)
        for i, l in enumerate(self.link):
            self._appendUnlinked(l, args[i])

    def hasField(self, label):
        return label in self.data

    def getFieldNames(self):
        return list(self.data.keys())

    def clear(self, unlinked=False):
        self.reset()
        keys = self.link
        if keys == [] or unlinked:
            keys = self.data
        for k in keys:
            shape = list(self.data[k].shape)
            shape[0] = 0
            self.data[k] = zeros(shape)
            self.endmarker[k] = 0

    def __reduce__(self):
    
        def creator():
            obj = self.__class__()
            obj.vectorformat = self.vectorformat
            return obj
        args = tuple()
        state = {'data': self.data, 'link': self.link, 'endmarker': self.endmarker}
        return (creator, args, state, iter([]), iter({}))

    def copy(self):
        import copy
        return copy.deepcopy(self)

    def setVectorFormat(self, vf):
        switch = {'1d': self._convertArray1d, '2d': self._convertArray2d, 'list': self._convertList, 'none': lambda x: x}
        try:
            self._convert = switch[vf]
            self.__vectorformat = vf
        except KeyError:
            raise VectorFormatError("vector format must be one of '1d', '2d', 'list'. given: %s" % vf)

    def getVectorFormat(self):
        return self.__vectorformat


@target('pybrain.datasets.supervised.SupervisedDataSet')
class SupervisedDataSet:
    def __init__(self, inp, target):
        DataSet.__init__(self)
        if isscalar(inp):
            self.addField('input', inp)
            self.addField('target', target)
        else:
            self.setField('input', inp)
            self.setField('target', target)
        self.linkFields(['input', 'target'])
        self.index = 0
        self.indim = self.getDimension('input')
        self.outdim = self.getDimension('target')

    def __reduce__(self):
        _, _, state, _, _ = super(SupervisedDataSet, self).__reduce__()
        creator = self.__class__
        args = (self.indim, self.outdim)
        return (creator, args, state, iter([]), iter({}))

    def addSample(self, inp, target):
        self.appendLinked(inp, target)

    def setField(self, label, arr, **kwargs):
        DataSet.setField(self, label, arr, **kwargs)
        if label == 'input':
            self.indim = self.getDimension('input')
        elif label == 'target':
            self.outdim = self.getDimension('target')


@target('pybrain.datasets.unsupervised.UnsupervisedDataSet')
class UnsupervisedDataSet:
    def __init__(self, dim):
        super(UnsupervisedDataSet, self).__init__()
        self.addField('sample', dim)
        self.linkFields(['sample'])
        self.dim = dim
        self.index = 0

    def __reduce__(self):
        _, _, state, _, _ = super(UnsupervisedDataSet, self).__reduce__()
        creator = self.__class__
        args = (self.dim,)
        return (creator, args, state, iter([]), iter({}))

    def addSample(self, sample):
        self.appendLinked(sample)


@target('pybrain.datasets.reinforcement.ReinforcementDataSet')
class ReinforcementDataSet:
    def __init__(self, statedim, actiondim):
        DataSet.__init__(self)
        self.addField('state', statedim)
        self.addField('action', actiondim)
        self.addField('reward', 1)
        self.linkFields(['state', 'action', 'reward'])
        self.index = 0
        self.addField('sequence_index', 1)
        self.append('sequence_index', 0)
        self.currentSeq = 0
        self.statedim = statedim
        self.actiondim = actiondim
        self.indim = self.statedim
        self.outdim = self.actiondim

    def addSample(self, state, action, reward):
        self.appendLinked(state, action, reward)

    def __reduce__(self):
        _, _, state, _, _ = DataSet.__reduce__(self)
        creator = self.__class__
        args = (self.statedim, self.actiondim)
        return (creator, args, state, iter([]), iter({}))


@target('pybrain.datasets.importance.ImportanceDataSet')
class ImportanceDataSet:
    def __init__(self, indim, targetdim):
        SequentialDataSet.__init__(self, indim, targetdim)
        self.addField('importance', targetdim)
        self.link.append('importance')

    def addSample(self, inp, target, importance=None):
        if importance is None:
            importance = ones(len(target))
        self.appendLinked(inp, target, importance)


@target('pybrain.datasets.sequential.SequentialDataSet')
class SequentialDataSet:
    def __init__(self, indim, targetdim):
        SupervisedDataSet.__init__(self, indim, targetdim)
        self.addField('sequence_index', 1)
        self.append('sequence_index', 0)
        self.currentSeq = 0

    def clear(self):
        SupervisedDataSet.clear(self, True)
        self._appendUnlinked('sequence_index', [0])
        self.currentSeq = 0

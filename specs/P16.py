

@target('pybrain.utilities.formatFromExtension')
def formatFromExtension(fname):
    _base, ext = os.path.splitext(fname)
    if not ext:
        return None
    try:
        format = known_extensions[ext.replace('.', '')]
    except KeyError:
        format = None
    return format


@target('pybrain.utilities.Serializable')
class Serializable:
    def saveToFileLike(self, flo, format=None, **kwargs):
        format = 'pickle' if format is None else format
        save = getattr(self, 'save_%s' % format, None)
        if save is None:
            raise ValueError("Unknown format '%s'." % format)
        save(flo, **kwargs)

    @classmethod
    def loadFromFileLike(cls, flo, format=None):
        format = 'pickle' if format is None else format
        load = getattr(cls, 'load_%s' % format, None)
        if load is None:
            raise ValueError("Unknown format '%s'." % format)
        return load(flo)

    def saveToFile(self, filename, format=None, **kwargs):
        if format is None:
            format = formatFromExtension(filename)
        with open(filename, 'wb') as fp:
            self.saveToFileLike(fp, format, **kwargs)

    @classmethod
    def loadFromFile(cls, filename, format=None):
        if format is None:
            format = formatFromExtension(filename)
        with open(filename, 'rb') as fp:
            obj = cls.loadFromFileLike(fp, format)
            obj.filename = filename
            return obj

    def save_pickle(self, flo, protocol=0):
        pickle.dump(self, flo, protocol)

    @classmethod
    def load_pickle(cls, flo):
        return pickle.load(flo)


@target('pybrain.utilities.Named')
class Named:
    def getName(self):
        logging.warning('Deprecated, use .name property instead.')
        return self.name

    def setName(self, newname):
        logging.warning('Deprecated, use .name property instead.')
        self.name = newname

    def _getName(self):
        if self._name is None:
            self._name = self._generateName()
        return self._name

    def _setName(self, newname):
        self._name = newname

    def _generateName(self):
        return '%s-%i' % (self.__class__.__name__, next(self._nameIds))

    def __repr__(self):
        return "<%s '%s'>" % (self.__class__.__name__, self.name)

    def _getName(self):
        if self._name is None:
            self._name = self._generateName()
        return self._name


@target('pybrain.datasets.dataset.DataSet')
class DataSet:
    def __reduce__(self):
    
        def creator():
            obj = self.__class__()
            obj.vectorformat = self.vectorformat
            return obj
        args = tuple()
        state = {'data': self.data, 'link': self.link, 'endmarker': self.endmarker}
        return (creator, args, state, iter([]), iter({}))

    def save_pickle(self, flo, protocol=0, compact=False):
        if compact:
            for field in self.getFieldNames():
                temp = self[field][0:self.endmarker[field] + 1, :]
                self.setField(field, temp)
        Serializable.save_pickle(self, flo, protocol)


@target('pybrain.datasets.supervised.SupervisedDataSet')
class SupervisedDataSet:
    def __reduce__(self):
        _, _, state, _, _ = super(SupervisedDataSet, self).__reduce__()
        creator = self.__class__
        args = (self.indim, self.outdim)
        return (creator, args, state, iter([]), iter({}))


@target('pybrain.datasets.unsupervised.UnsupervisedDataSet')
class UnsupervisedDataSet:
    def __reduce__(self):
        _, _, state, _, _ = super(UnsupervisedDataSet, self).__reduce__()
        creator = self.__class__
        args = (self.dim,)
        return (creator, args, state, iter([]), iter({}))


@target('pybrain.datasets.reinforcement.ReinforcementDataSet')
class ReinforcementDataSet:
    def __reduce__(self):
        _, _, state, _, _ = DataSet.__reduce__(self)
        creator = self.__class__
        args = (self.statedim, self.actiondim)
        return (creator, args, state, iter([]), iter({}))


@target('pybrain.datasets.classification.ClassificationDataSet')
class ClassificationDataSet:
    def __reduce__(self):
        _, _, state, _lst, _dct = super(ClassificationDataSet, self).__reduce__()
        creator = self.__class__
        args = (self.indim, self.outdim, self.nClasses, self.class_labels)
        return (creator, args, state, iter([]), iter({}))

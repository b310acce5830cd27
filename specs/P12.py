

@target('pybrain.datasets.dataset.DataSet')
class DataSet:
    def __getitem__(self, field):
        return self.getField(field)

    def __iter__(self):
        self.reset()
        while not self.endOfData():
            yield self.getLinked()

    def getLength(self):
        if self.link == []:
            try:
                length = max(self.endmarker.values())
            except ValueError:
                return 0
            return length
        else:
            l = self.link[0]
            return self.endmarker[l]

    @pure('_convert')
    def getLinked(self, index=None):
        if self.link == []:
            raise NoLinkedFieldsError('The dataset does not have any linked fields.')
        if index == None:
            index = self.index
            self.index += 1
        else:
            self.index = index + 1
        if index >= self.getLength():
            raise IndexError('index out of bounds of the dataset.')
        return [self._convert(self.data[l][index]) for l in self.link]

    def getField(self, label):
        label_data = self.data[label][:self.endmarker[label]]
        if self.vectorformat == 'list':
            label_data = label_data.tolist()
        return label_data

    def convertField(self, label, newtype):
        try:
            self.setField(label, self.data[label][:self.endmarker[label]].astype(newtype))
        except KeyError:
            raise KeyError('convertField: dataset field %s not found.' % label)

    def endOfData(self):
        return self.index == self.getLength()

    def reset(self):
        self.index = 0

    def batches(self, label, n, permutation=None):
        full_batches, rest = divmod(len(self), n)
        number_of_batches = full_batches if rest == 0 else full_batches + 1
        startindexes = (i * n for i in range(number_of_batches))
        stopindexes = ((i + 1) * n for i in range(number_of_batches - 1))
        stopindexes = chain(stopindexes, [len(self)])
        indexes = list(zip(startindexes, stopindexes))
        if permutation is not None:
            indexes = [indexes[i] for i in permutation]
        for start, stop in indexes:
            yield self.data[label][start:stop]

    def randomBatches(self, label, n):
        permutation = list(range((len(self) + n - 1) // n))
        random.shuffle(permutation)
        return self.batches(label, n, permutation)

    def _convertList(self, vector):
        return ravel(vector).tolist()

    def _convertArray1d(self, vector):
        return ravel(vector)

    def _convertArray2d(self, vector, column=False):
        a = asarray(vector)
        sh = a.shape
        if len(sh) == 0:
            sh = (1,)
        if len(sh) == 1:
            if column:
                return a.reshape((sh[0], 1))
            else:
                return a.reshape((1, sh[0]))
        else:
            return a


@target('pybrain.datasets.supervised.SupervisedDataSet')
class SupervisedDataSet:
    def getSample(self, index=None):
        return self.getLinked(index)

    def _provideSequences(self):
        return iter([[x] for x in iter(self)])

    def evaluateMSE(self, f, **args):
        ponderation = 0.0
        totalError = 0
        for seq in self._provideSequences():
            e, p = self._evaluateSequence(f, seq, **args)
            totalError += e
            ponderation += p
        assert ponderation > 0
        return totalError / ponderation

    def _evaluateSequence(self, f, seq, verbose=False):
        totalError = 0.0
        ponderation = 0.0
        for input, target in seq:
            res = f(input)
            e = 0.5 * sum((target - res).flatten() ** 2)
            totalError += e
            ponderation += len(target)
            if verbose:
                print(('out:    ', fListToString(list(res))))
                print(('correct:', fListToString(target)))
                print('error: % .8f' % e)
        return (totalError, ponderation)

    def evaluateModuleMSE(self, module, averageOver=1, **args):
        res = 0.0
        for dummy in range(averageOver):
            module.reset()
            res += self.evaluateMSE(module.activate, **args)
        return res / averageOver


@target('pybrain.datasets.unsupervised.UnsupervisedDataSet')
class UnsupervisedDataSet:
    def getSample(self, index):
        return self.getLinked(index)


@target('pybrain.datasets.importance.ImportanceDataSet')
class ImportanceDataSet:
    def _evaluateSequence(self, f, seq, verbose=False):
        totalError = 0
        ponderation = 0.0
        for input, target, importance in seq:
            res = f(input)
            e = 0.5 * dot(importance.flatten(), (target - res).flatten() ** 2)
            totalError += e
            ponderation += sum(importance)
            if verbose:
                print(('out:       ', fListToString(list(res))))
                print(('correct:   ', fListToString(target)))
                print(('importance:', fListToString(importance)))
                print('error: % .8f' % e)
        return (totalError, ponderation)


@target('pybrain.datasets.sequential.SequentialDataSet')
class SequentialDataSet:
    def _provideSequences(self):
        return iter(map(list, iter(self)))

    def evaluateModuleMSE(self, module, averageOver=1, **args):
        res = 0.0
        for dummy in range(averageOver):
            ponderation = 0.0
            totalError = 0
            for seq in self._provideSequences():
                module.reset()
                e, p = self._evaluateSequence(module.activate, seq, **args)
                totalError += e
                ponderation += p
            assert ponderation > 0
            res += totalError / ponderation
        return res / averageOver


@target('pybrain.datasets.reinforcement.ReinforcementDataSet')
class ReinforcementDataSet:
    def getSumOverSequences(self, field):
        sums = zeros((self.getNumSequences(), self.getDimension(field)))
        for n in range(self.getNumSequences()):
            sums[n, :] = sum(self._getSequenceField(n, field), 0)
        return sums

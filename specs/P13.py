

@target('pybrain.datasets.sequential.SequentialDataSet')
class SequentialDataSet:
    def newSequence(self):
        length = self.getLength()
        if length != 0:
            if ravel(self.getField('sequence_index'))[-1] == length:
                raise EmptySequenceError
            self._appendUnlinked('sequence_index', length)

    def _getSequenceField(self, index, field):
        seq = ravel(self.getField('sequence_index')).astype(int)
        if len(seq) == index + 1:
            return self.getField(field)[seq[index]:]
        if len(seq) < index + 1:
            raise IndexError('sequence does not exist.')
        return self.getField(field)[seq[index]:seq[index + 1]]

    def getSequence(self, index):
        return [self._getSequenceField(index, l) for l in self.link]

    def getSequenceIterator(self, index):
        return zip(*self.getSequence(index))

    def endOfSequence(self, index):
        seq = ravel(self.getField('sequence_index')).astype(int)
        if len(seq) == index + 1:
            return self.endOfData()
        if len(seq) < index + 1:
            raise IndexError('sequence does not exist.')
        else:
            return self.index >= seq[index + 1]

    def gotoSequence(self, index):
        try:
            self.index = int(ravel(self.getField('sequence_index'))[index])
        except IndexError:
            raise IndexError('sequence does not exist')

    def getCurrentSequence(self):
        seq = ravel(self.getField('sequence_index')).astype(int)
        return len(seq) - sum(seq > self.index) - 1

    def getNumSequences(self):
        return self.getField('sequence_index').shape[0]

    def getSequenceLength(self, index):
        seq = ravel(self.getField('sequence_index')).astype(int)
        if len(seq) == index + 1:
            return int(self.getLength() - seq[index])
        if len(seq) < index + 1:
            raise IndexError('sequence does not exist.')
        return int(seq[index + 1] - seq[index])

    def removeSequence(self, index):
        if index >= self.getNumSequences():
            raise IndexError('sequence does not exist.')
        sequences = ravel(self.getField('sequence_index')).astype(int)
        seqstart = sequences[index]
        if index == self.getNumSequences() - 1:
            lastSeqDeleted = True
            seqend = self.getLength()
        else:
            lastSeqDeleted = False
            seqend = sequences[index + 1]
        for label in self.link:
            self.data[label] = r_[self.data[label][:seqstart, :], self.data[label][seqend:, :]]
            self.endmarker[label] -= seqend - seqstart
        for i, val in enumerate(sequences):
            if val > seqstart:
                self.data['sequence_index'][i, :] -= seqend - seqstart
        self.data['sequence_index'] = r_[self.data['sequence_index'][:index, :], self.data['sequence_index'][index + 1:, :]]
        self.endmarker['sequence_index'] -= 1
        if lastSeqDeleted:
            self.currentSeq = index - 1
            self.index = self.getLength()
            if self.getLength() == 0:
                self.clear()
        else:
            self.currentSeq = index
            self.index = int(ravel(self.getField('sequence_index'))[index])

    def __iter__(self):
        for i in range(self.getNumSequences()):
            yield self.getSequenceIterator(i)

    def splitWithProportion(self, proportion=0.5):
        l = self.getNumSequences()
        leftIndices = sample(list(range(l)), int(l * proportion))
        leftDs = self.copy()
        leftDs.clear()
        rightDs = leftDs.copy()
        index = 0
        for seq in iter(self):
            if index in leftIndices:
                leftDs.newSequence()
                for sp in seq:
                    leftDs.addSample(*sp)
            else:
                rightDs.newSequence()
                for sp in seq:
                    rightDs.addSample(*sp)
            index += 1
        return (leftDs, rightDs)


@target('pybrain.datasets.supervised.SupervisedDataSet')
class SupervisedDataSet:
    def splitWithProportion(self, proportion=0.5):
        indicies = random.permutation(len(self))
        separator = int(len(self) * proportion)
        leftIndicies = indicies[:separator]
        rightIndicies = indicies[separator:]
        leftDs = SupervisedDataSet(inp=self['input'][leftIndicies].copy(), target=self['target'][leftIndicies].copy())
        rightDs = SupervisedDataSet(inp=self['input'][rightIndicies].copy(), target=self['target'][rightIndicies].copy())
        return (leftDs, rightDs)


@target('pybrain.tools.datasettools.convertSequenceToTimeWindows')
def convertSequenceToTimeWindows(DSseq, NewClass, winsize):
    assert isinstance(DSseq, SequentialDataSet)
    DSwin = NewClass(DSseq.indim * winsize, DSseq.outdim)
    nsamples = 0
    nseqs = 0
    si = r_[DSseq['sequence_index'].flatten(), len(DSseq)].astype(int)
    for i in range(DSseq.getNumSequences()):
        input = DSseq['input'][si[i]:si[i + 1], :]
        target = DSseq['target'][si[i]:si[i + 1], :]
        nseqs += 1
        for k in range(winsize, input.shape[0] + 1, winsize):
            inp_win = input[k - winsize:k, :]
            tar_win = target[k - 1, :]
            DSwin.addSample(inp_win.flatten(), tar_win.flatten())
            nsamples += 1
    print(('samples in original dataset: ', len(DSseq)))
    print(('window size * nsamples = ', winsize * nsamples))
    print(('total data points in original data: ', len(DSseq) * DSseq.indim))
    print(('total data points in windowed dataset: ', len(DSwin) * DSwin.indim))
    return DSwin


@target('pybrain.tools.datasettools.DataSetNormalizer')
class DataSetNormalizer:
    def load(self, fname):
        f = open(fname)
        c = []
        x = f.readline()
        self.meanstd = False if x.strip() == 'x' else True
        bounds = array(f.readline().split()).astype(float)
        for line in f:
            c.append(array(line.split()).astype(float)[1:])
        self.dim = len(c)
        c = array(c)
        self.par1 = c[:, 0]
        self.par2 = c[:, 1]
        self.scale = (bounds[1] - bounds[0]) / (c[:, 1] - c[:, 0])
        self.newmin = bounds[0]
        self.newmax = bounds[1]

    def save(self, fname):
        f = open(fname, 'w+')
        f.write('meanstd\n' if self.meanstd else 'x\n')
        f.write('%g %g\n' % (self.newmin, self.newmax))
        for i in range(self.dim):
            f.write('%d %g %g\n' % (i + 1, self.par1[i], self.par2[i]))
        f.close()

    def normalizePattern(self, y):
        return (y - self.par1) * self.scale + self.newmin

    def normalize(self, ds, field='input'):
        if self.dim <= 0:
            raise IndexError('No normalization parameters defined!')
        dsdim = ds[field].shape[1]
        if self.dim != dsdim:
            raise IndexError('Dimension of normalization params does not match DataSet field!')
        newfeat = ds[field]
        if self.meanstd:
            for i in range(dsdim):
                divisor = self.par2[i] if self.par2[i] > 0 else 1.0
                newfeat[:, i] = (newfeat[:, i] - self.par1[i]) / divisor
        else:
            for i in range(dsdim):
                scale = self.scale[i] if isfinite(self.scale[i]) else 1.0
                newfeat[:, i] = (newfeat[:, i] - self.par1[i]) * scale + self.newmin
        ds.setField(field, newfeat)

    def calculate(self, ds, bounds=[-1, 1], field='input'):
        self.dim = ds[field].shape[1]
        if self.meanstd:
            self.par1 = ds[field].mean(axis=0)
            self.par2 = ds[field].std(axis=0)
        else:
            self.par1 = ds[field].min(axis=0)
            self.par2 = ds[field].max(axis=0)
            self.scale = (bounds[1] - bounds[0]) / (self.par2 - self.par1)
        self.newmin = bounds[0]
        self.newmax = bounds[1]

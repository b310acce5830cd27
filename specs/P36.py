

@target('pybrain.tools.validation.Validator')
class Validator:
    @classmethod
    def classificationPerformance(cls, output, target):
        output = array(output)
        target = array(target)
        assert len(output) == len(target)
        n_correct = sum(output == target)
        return float(n_correct) / float(len(output))

    @classmethod
    def ESS(cls, output, target):
        return sum((output - target) ** 2)

    @classmethod
    def MSE(cls, output, target, importance=None):
        output = array(output)
        target = array(target)
        assert output.shape == target.shape
        if importance is not None:
            assert importance.shape == target.shape
            importance = importance.flatten()
        output = output.flatten()
        target = target.flatten()
        if importance is None:
            importance = ones(len(output))
        squared_error = (output - target) ** 2
        mse = dot(squared_error, importance) / sum(importance)
        return mse


@target('pybrain.tools.validation.ClassificationHelper')
class ClassificationHelper:
    @classmethod
    def oneOfManyToClasses(cls, data):
        return apply_along_axis(argmax, 1, data)


@target('pybrain.tools.validation.SequenceHelper')
class SequenceHelper:
    @classmethod
    def getSequenceEnds(cls, dataset):
        sequence_ends = delete(dataset.getField('sequence_index') - 1, 0)
        sequence_ends = append(sequence_ends, dataset.getLength() - 1)
        sequence_ends = array(sequence_ends)
        return sequence_ends

    @classmethod
    def getSequenceStarts(cls, dataset):
        return list(dataset.getField('sequence_index'))

    @classmethod
    def getSequenceEndsImportance(cls, dataset):
        importance = zeros(dataset.getLength())
        importance[cls.getSequenceEnds(dataset).astype(int)] = 1.0
        return importance


@target('pybrain.tools.validation.ModuleValidator')
class ModuleValidator:
    @classmethod
    def classificationPerformance(cls, module, dataset):
        return ModuleValidator.validate(Validator.classificationPerformance, module, dataset)

    @classmethod
    def MSE(cls, module, dataset):
        return ModuleValidator.validate(Validator.MSE, module, dataset)

    @classmethod
    def validate(cls, valfunc, module, dataset):
        target = dataset.getField('target')
        output = ModuleValidator.calculateModuleOutput(module, dataset)
        if isinstance(dataset, ImportanceDataSet):
            importance = dataset.getField('importance')
            return valfunc(output, target, importance)
        else:
            return valfunc(output, target)

    @classmethod
    def _calculateModuleOutputSequential(cls, module, dataset):
        outputs = []
        for seq in dataset._provideSequences():
            module.reset()
            for i in range(len(seq)):
                output = module.activate(seq[i][0])
                outputs.append(output.copy())
        outputs = array(outputs)
        return outputs

    @classmethod
    def calculateModuleOutput(cls, module, dataset):
        if isinstance(dataset, SequentialDataSet) or isinstance(dataset, ImportanceDataSet):
            return cls._calculateModuleOutputSequential(module, dataset)
        else:
            module.reset()
            input = dataset.getField('input')
            output = array([module.activate(inp) for inp in input])
            return output


@target('pybrain.tools.validation.CrossValidator')
class CrossValidator:
    def __init__(self, trainer, dataset, n_folds=5, valfunc=ModuleValidator.classificationPerformance, **kwargs):
        self._trainer = trainer
        self._dataset = dataset
        self._n_folds = n_folds
        self._calculatePerformance = valfunc
        self._max_epochs = None
        self.setArgs(**kwargs)

    def setArgs(self, **kwargs):
        for key, value in list(kwargs.items()):
            if key in ('verbose', 'ver', 'v'):
                self._verbosity = value
            elif key in 'max_epochs':
                self._max_epochs = value

    def validate(self):
        dataset = self._dataset
        trainer = self._trainer
        n_folds = self._n_folds
        l = dataset.getLength()
        inp = dataset.getField('input')
        tar = dataset.getField('target')
        indim = dataset.indim
        outdim = dataset.outdim
        assert l > n_folds
        perms = array_split(permutation(l), n_folds)
        perf = 0.0
        for i in range(n_folds):
            train_perms_idxs = list(range(n_folds))
            train_perms_idxs.pop(i)
            temp_list = []
            for train_perms_idx in train_perms_idxs:
                temp_list.append(perms[train_perms_idx])
            train_idxs = concatenate(temp_list)
            test_idxs = perms[i]
            train_ds = SupervisedDataSet(indim, outdim)
            train_ds.setField('input', inp[train_idxs])
            train_ds.setField('target', tar[train_idxs])
            trainer = copy.deepcopy(self._trainer)
            trainer.setData(train_ds)
            if not self._max_epochs:
                trainer.train()
            else:
                trainer.trainEpochs(self._max_epochs)
            test_ds = SupervisedDataSet(indim, outdim)
            test_ds.setField('input', inp[test_idxs])
            test_ds.setField('target', tar[test_idxs])
            perf += self._calculatePerformance(trainer.module, test_ds)
        perf /= n_folds
        return perf


@target('pybrain.tools.validation.testOnSequenceData')
def testOnSequenceData(module, dataset):
    target = dataset.getField('target')
    output = ModuleValidator.calculateModuleOutput(module, dataset)
    ends = SequenceHelper.getSequenceEnds(dataset)
    summed_output = zeros(dataset.outdim)
    class_output = []
    class_target = []
    for j in range(len(output)):
        summed_output += output[j]
        if j in ends:
            class_output.append(argmax(summed_output))
            class_target.append(argmax(target[j]))
            summed_output = zeros(dataset.outdim)
    class_output = array(class_output)
    class_target = array(class_target)
    return Validator.classificationPerformance(class_output, class_target)

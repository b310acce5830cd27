

@target('pybrain.utilities.drawIndex')
def drawIndex(probs, tolerant=False):
    if not sum(probs) < 1.00001 or not sum(probs) > 0.99999:
        if tolerant:
            probs = array(probs) / float(sum(probs))
        else:
            print((probs, 1 - sum(probs)))
            raise ValueError()
    r = random()
    s = 0
    for i, p in enumerate(probs):
        s += p
        if s > r:
            return i
    return choice(list(range(len(probs))))


@target('pybrain.utilities.drawGibbs')
def drawGibbs(vals, temperature=1.0):
    if temperature == 0:
        m = max(vals)
        best = []
        for i, v in enumerate(vals):
            if v == m:
                best.append(i)
        return choice(best)
    else:
        temp = vals / temperature
        temp += 20 - max(temp)
        if min(temp) < -20:
            for i, v in enumerate(temp):
                if v < -20:
                    temp[i] = -20
        temp = exp(temp)
        temp /= sum(temp)
        return drawIndex(temp)


@target('pybrain.utilities.percentError')
def percentError(out, true):
    arrout = array(out).flatten()
    wrong = where(arrout != array(true).flatten())[0].size
    return 100.0 * float(wrong) / float(arrout.size)


@target('pybrain.utilities.formatFromExtension')
def formatFromExtension(fname):
    _base, ext = os.path.splitext(fname)
    if not ext:
        return None
    try:
        format = known_extensions[ext.replace('.', '')]
    except KeyError:
        format = None
    return format


@target('pybrain.utilities.tupleRemoveItem')
def tupleRemoveItem(tup, index):
    l = list(tup)
    return tuple(l[:index] + l[index + 1:])


@target('pybrain.utilities.confidenceIntervalSize')
def confidenceIntervalSize(stdev, nbsamples):
    return 2 * 1.98 * stdev / sqrt(nbsamples)


@target('pybrain.utilities.int2gray')
def int2gray(i):
    return i ^ i >> 1


@target('pybrain.utilities.gray2int')
def gray2int(g, size):
    res = 0
    for i in reversed(list(range(size))):
        gi = (g >> i) % 2
        if i == size - 1:
            bi = gi
        else:
            bi = bi ^ gi
        res += bi * 2 ** i
    return res


@target('pybrain.utilities.asBinary')
def asBinary(i):
    if i > 1:
        if i % 2 == 1:
            return asBinary(i >> 1) + '1'
        else:
            return asBinary(i >> 1) + '0'
    else:
        return str(i)


@target('pybrain.utilities.one_to_n')
def one_to_n(val, maxval):
    a = zeros(maxval, float)
    a[int(val)] = 1.0
    return a


@target('pybrain.utilities.n_to_one')
def n_to_one(arr):
    return where(arr == 1)[0][0]


@target('pybrain.utilities.decrementAny')
def decrementAny(tup):
    res = []
    for i, x in enumerate(tup):
        if x > 0:
            res.append(tuple(list(tup[:i]) + [x - 1] + list(tup[i + 1:])))
    return res


@target('pybrain.utilities.crossproduct')
def crossproduct(ss, row=None, level=0):
    if row is None:
        row = []
    if len(ss) > 1:
        return reduce(operator.add, [crossproduct(ss[1:], row + [i], level + 1) for i in ss[0]])
    else:
        return [row + [i] for i in ss[0]]


@target('pybrain.utilities.permute')
def permute(arr, permutation):
    return array([arr[i] for i in permutation])


@target('pybrain.utilities.permuteToBlocks')
def permuteToBlocks(arr, blockshape):
    if len(blockshape) < 2:
        raise ValueError('Need more than one dimension.')
    elif len(blockshape) == 2:
        blockheight, blockwidth = blockshape
        return permuteToBlocks2d(arr, blockheight, blockwidth)
    elif len(blockshape) == 3:
        blockdepth, blockheight, blockwidth = blockshape
        return permuteToBlocks3d(arr, blockdepth, blockheight, blockwidth)
    else:
        raise NotImplementedError('Only for dimensions 2 and 3.')


@target('pybrain.utilities.permuteToBlocks3d')
def permuteToBlocks3d(arr, blockdepth, blockheight, blockwidth):
    depth, height, width = arr.shape
    arr_ = arr.reshape(height * depth, width)
    arr_ = permuteToBlocks2d(arr_, blockheight, blockwidth)
    arr_.shape = (depth, height * width)
    return permuteToBlocks2d(arr_, blockdepth, blockwidth * blockheight)


@target('pybrain.utilities.permuteToBlocks2d')
def permuteToBlocks2d(arr, blockheight, blockwidth):
    _height, width = arr.shape
    arr = arr.flatten()
    new = zeros(size(arr))
    for i in range(size(arr)):
        blockx = i % width // blockwidth
        blocky = i // width // blockheight
        blockoffset = blocky * width // blockwidth + blockx
        blockoffset *= blockwidth * blockheight
        inblockx = i % blockwidth
        inblocky = i // width % blockheight
        j = blockoffset + inblocky * blockwidth + inblockx
        new[j] = arr[i]
    return new


@target('pybrain.utilities.triu2flat')
def triu2flat(m):
    dim = m.shape[0]
    res = zeros(dim * (dim + 1) // 2)
    index = 0
    for row in range(dim):
        res[index:index + dim - row] = m[row, row:]
        index += dim - row
    return res


@target('pybrain.utilities.flat2triu')
def flat2triu(a, dim):
    res = zeros((dim, dim))
    index = 0
    for row in range(dim):
        res[row, row:] = a[index:index + dim - row]
        index += dim - row
    return res


@target('pybrain.utilities.blockList2Matrix')
def blockList2Matrix(l):
    dims = [m.shape[0] for m in l]
    s = sum(dims)
    res = zeros((s, s))
    index = 0
    for i in range(len(l)):
        d = dims[i]
        m = l[i]
        res[index:index + d, index:index + d] = m
        index += d
    return res


@target('pybrain.utilities.blockCombine')
def blockCombine(l):
    l = [list(map(mat, row)) for row in l]
    hdims = [m.shape[1] for m in l[0]]
    hs = sum(hdims)
    vdims = [row[0].shape[0] for row in l]
    vs = sum(vdims)
    res = zeros((vs, hs))
    vindex = 0
    for i, row in enumerate(l):
        hindex = 0
        for j, m in enumerate(row):
            res[vindex:vindex + vdims[i], hindex:hindex + hdims[j]] = m
            hindex += hdims[j]
        vindex += vdims[i]
    return res


@target('pybrain.utilities.avgFoundAfter')
def avgFoundAfter(decreasingTargetValues, listsOfActualValues, batchSize=1, useMedian=False):
    from scipy import sum
    numLists = len(listsOfActualValues)
    longest = max(list(map(len, listsOfActualValues)))
    res = [[0] for _ in range(numLists)]
    for tval in decreasingTargetValues:
        for li, l in enumerate(listsOfActualValues):
            lres = res[li]
            found = False
            for i in range(lres[-1], len(l)):
                if l[i] <= tval:
                    lres.append(i)
                    found = True
                    break
            if not found:
                lres.append(longest)
    tmp = array(res)
    if useMedian:
        resx = median(tmp, axis=0)[1:]
    else:
        resx = sum(tmp, axis=0)[1:] / float(numLists)
    return resx * batchSize


@target('pybrain.utilities.matchingDict')
def matchingDict(d, selection, require_existence=False):
    for k, v in list(selection.items()):
        if k in d:
            if isinstance(v, list):
                if d[k] not in v:
                    return False
            elif d[k] != v:
                return False
        elif require_existence:
            return False
    return True


@target('pybrain.utilities.subDict')
def subDict(d, allowedkeys, flip=False):
    res = {}
    for k, v in list(d.items()):
        if (k in allowedkeys) ^ flip:
            res[k] = v
    return res


@target('pybrain.utilities.dictCombinations')
def dictCombinations(listdict):
    listdict = listdict.copy()
    if len(listdict) == 0:
        return [{}]
    k, vs = listdict.popitem()
    res = dictCombinations(listdict)
    if isinstance(vs, list) or isinstance(vs, tuple):
        res = [dict(d, **{k: v}) for d in res for v in sorted(set(vs))]
    else:
        res = [dict(d, **{k: vs}) for d in res]
    return res


@target('pybrain.utilities.r_argmax')
def r_argmax(v):
    if len(v) == 1:
        return 0
    maxbid = max(v)
    maxbidders = [i for i, b in enumerate(v) if b == maxbid]
    return choice(maxbidders)


@target('pybrain.utilities.all_argmax')
def all_argmax(x):
    m = max(x)
    return [i for i, v in enumerate(x) if v == m]


@target('pybrain.utilities.uniqueArrays')
def uniqueArrays(vs):
    resdic = {}
    for v in vs:
        resdic[xhash(v)] = v
    return list(resdic.values())


@target('pybrain.utilities.weightedUtest')
def weightedUtest(g1, w1, g2, w2):
    from scipy.stats.distributions import norm
    import numpy
    n1 = sum(w1)
    n2 = sum(w2)
    u1 = 0.0
    for x1, wx1 in zip(g1, w1):
        for x2, wx2 in zip(g2, w2):
            if x1 == x2:
                u1 += 0.5 * wx1 * wx2
            elif x1 > x2:
                u1 += wx1 * wx2
    mu = n1 * n2 / 2.0
    sigu = numpy.sqrt(n1 * n2 * (n1 + n2 + 1) / 12.0)
    z = (u1 - mu) / sigu
    conf = norm.cdf(z)
    return conf


@target('pybrain.utilities.setAllArgs')
def setAllArgs(obj, argdict):
    xmlstore = isinstance(obj, XMLBuildable)
    for n in list(argdict.keys()):
        if hasattr(obj, n):
            setattr(obj, n, argdict[n])
            if xmlstore:
                obj.argdict[n] = argdict[n]
        else:
            print(('Warning: parameter name', n, 'not found!'))
            if xmlstore:
                if not hasattr(obj, '_unknown_argdict'):
                    obj._unknown_argdict = {}
                obj._unknown_argdict[n] = argdict[n]


@target('pybrain.utilities.Serializable')
class Serializable:
    def saveToFileLike(self, flo, format=None, **kwargs):
        format = 'pickle' if format is None else format
        save = getattr(self, 'save_%s' % format, None)
        if save is None:
            raise ValueError("Unknown format '%s'." % format)
        save(flo, **kwargs)

    @classmethod
    def loadFromFileLike(cls, flo, format=None):
        format = 'pickle' if format is None else format
        load = getattr(cls, 'load_%s' % format, None)
        if load is None:
            raise ValueError("Unknown format '%s'." % format)
        return load(flo)

    def saveToFile(self, filename, format=None, **kwargs):
        if format is None:
            format = formatFromExtension(filename)
        with open(filename, 'wb') as fp:
            self.saveToFileLike(fp, format, **kwargs)

    @classmethod
    def loadFromFile(cls, filename, format=None):
        if format is None:
            format = formatFromExtension(filename)
        with open(filename, 'rb') as fp:
            obj = cls.loadFromFileLike(fp, format)
            obj.filename = filename
            return obj

    def save_pickle(self, flo, protocol=0):
        pickle.dump(self, flo, protocol)

    @classmethod
    def load_pickle(cls, flo):
        return pickle.load(flo)


@target('pybrain.utilities.Named')
class Named:
    def getName(self):
        logging.warning('Deprecated, use .name property instead.')
        return self.name

    def setName(self, newname):
        logging.warning('Deprecated, use .name property instead.')
        self.name = newname

    def _getName(self):
        if self._name is None:
            self._name = self._generateName()
        return self._name

    def _setName(self, newname):
        self._name = newname

    def _generateName(self):
        return '%s-%i' % (self.__class__.__name__, next(self._nameIds))

    def __repr__(self):
        return "<%s '%s'>" % (self.__class__.__name__, self.name)

    def _getName(self):
        if self._name is None:
            self._name = self._generateName()
        return self._name


@target('pybrain.utilities.XMLBuildable')
class XMLBuildable:
    def setArgs(self, **argdict):
        if not self.argdict:
            self.argdict = {}
        setAllArgs(self, argdict)


@target('pybrain.tools.functions.semilinear')
def semilinear(x):
    try:
        shape = x.shape
        x = x.flatten().tolist()
    except AttributeError:
        shape = (1, len(x))

    def f(val):
        if val < 0:
            return safeExp(val)
        else:
            return val + 1.0
    return array(list(map(f, x))).reshape(shape)


@target('pybrain.tools.functions.semilinearPrime')
def semilinearPrime(x):
    try:
        shape = x.shape
        x = x.flatten().tolist()
    except AttributeError:
        shape = (1, len(x))

    def f(val):
        if val < 0:
            return safeExp(val)
        else:
            return 1.0
    return array(list(map(f, x))).reshape(shape)


@target('pybrain.tools.functions.safeExp')
def safeExp(x):
    return exp(clip(x, -500, 500))


@target('pybrain.tools.functions.sigmoid')
def sigmoid(x):
    return 1.0 / (1.0 + safeExp(-x))


@target('pybrain.tools.functions.sigmoidPrime')
def sigmoidPrime(x):
    tmp = sigmoid(x)
    return tmp * (1 - tmp)


@target('pybrain.tools.functions.tanhPrime')
def tanhPrime(x):
    tmp = tanh(x)
    return 1 - tmp * tmp


@target('pybrain.tools.functions.ranking')
def ranking(R):
    l = sorted(list(enumerate(R)), key=lambda a: a[1])
    l = sorted(list(enumerate(l)), key=lambda a: a[1][0])
    return array([kv[0] for kv in l])


@target('pybrain.tools.functions.expln')
def expln(x):

    def f(val):
        if val < 0:
            return exp(val)
        else:
            return log(val + 1.0) + 1
    try:
        result = array(list(map(f, x)))
    except TypeError:
        result = array(f(x))
    return result


@target('pybrain.tools.functions.explnPrime')
def explnPrime(x):

    def f(val):
        if val < 0:
            return exp(val)
        else:
            return 1.0 / (val + 1.0)
    try:
        result = array(list(map(f, x)))
    except TypeError:
        result = array(f(x))
    return result


@target('pybrain.tools.functions.multivariateNormalPdf')
def multivariateNormalPdf(z, x, sigma):
    assert len(z.shape) == 1 and len(x.shape) == 1 and (len(x) == len(z)) and (sigma.shape == (len(x), len(z)))
    tmp = -0.5 * dot(dot(z - x, inv(sigma)), z - x)
    res = 1.0 / power(2.0 * pi, len(z) / 2.0) * (1.0 / sqrt(det(sigma))) * exp(tmp)
    return res


@target('pybrain.tools.functions.simpleMultivariateNormalPdf')
def simpleMultivariateNormalPdf(z, detFactorSigma):
    dim = len(z)
    return exp(-0.5 * dot(z, z)) / (power(2.0 * pi, dim / 2.0) * detFactorSigma)


@target('pybrain.tools.functions.multivariateCauchy')
def multivariateCauchy(mu, sigma, onlyDiagonal=True):
    if not onlyDiagonal:
        u, s, d = svd(sigma)
        coeffs = sqrt(s)
    else:
        coeffs = diag(sigma)
    r = rand(len(mu))
    res = coeffs * tan(pi * (r - 0.5))
    if not onlyDiagonal:
        res = dot(d, dot(res, u))
    return res + mu


@target('pybrain.tools.functions.approxChiFunction')
def approxChiFunction(dim):
    dim = float(dim)
    return sqrt(dim) * (1 - 1 / (4 * dim) + 1 / (21 * dim ** 2))


@target('pybrain.tools.functions.sqrtm')
def sqrtm(M):
    r = real_if_close(expm(0.5 * logm(M)), 1e-08)
    return (r + r.T) / 2



@target('pybrain.rl.environments.functions.transformations.oppositeFunction')
def oppositeFunction(basef):
    if isinstance(basef, FitnessEvaluator):
        if isinstance(basef, FunctionEnvironment):
            ' added by JPQ '
            if isinstance(basef, MultiObjectiveFunction):
                res = MultiObjectiveFunction()
            else:
                res = FunctionEnvironment(basef.xdim, basef.xopt)
        else:
            res = FitnessEvaluator()
        res.f = lambda x: -basef.f(x)
        if not basef.desiredValue is None:
            res.desiredValue = -basef.desiredValue
        res.toBeMinimized = not basef.toBeMinimized
        return res
    else:
        return lambda x: -basef(x)


@target('pybrain.rl.environments.functions.transformations.penalize')
def penalize(x, distance=5):
    ax = abs(x)
    tmp = clip(ax - distance, 0, ax.max())
    return dot(tmp, tmp)


@target('pybrain.rl.environments.functions.transformations.generateDiags')
def generateDiags(alpha, dim, shuffled=False):
    diags = [power(alpha, i / (2 * dim - 2.0)) for i in range(dim)]
    if shuffled:
        shuffle(diags)
    return diag(diags)


@target('pybrain.rl.environments.functions.transformations.TranslateFunction')
class TranslateFunction:
    def __init__(self, basef, distance=0.1, offset=None):
        FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
        if offset is None:
            self._offset = rand(basef.xdim)
            self._offset *= distance / norm(self._offset)
        else:
            self._offset = offset
        self.xopt = self.xopt + self._offset
        self.desiredValue = basef.desiredValue
        self.toBeMinimized = basef.toBeMinimized
    
        def tf(x):
            if isinstance(x, ParameterContainer):
                x = x.params
            return basef.f(x - self._offset)
        self.f = tf


@target('pybrain.rl.environments.functions.transformations.RotateFunction')
class RotateFunction:
    def __init__(self, basef, rotMat=None):
        FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
        if rotMat is None:
            self._M = orth(rand(basef.xdim, basef.xdim))
        else:
            self._M = rotMat
        self.desiredValue = basef.desiredValue
        self.toBeMinimized = basef.toBeMinimized
        self.xopt = dot(inv(self._M), self.xopt)
    
        def rf(x):
            if isinstance(x, ParameterContainer):
                x = x.params
            return basef.f(dot(x, self._M))
        self.f = rf


@target('pybrain.rl.environments.functions.transformations.SoftConstrainedFunction')
class SoftConstrainedFunction:
    def __init__(self, basef, distance=5, penalizationFactor=1.0):
        FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
        self.desiredValue = basef.desiredValue
        self.toBeMinimized = basef.toBeMinimized
        if basef.penalized:
            self.f = basef.f
        else:
            if not self.toBeMinimized:
                penalizationFactor *= -1
    
            def scf(x):
                if isinstance(x, ParameterContainer):
                    x = x.params
                return basef.f(x) + penalize(x, distance) * penalizationFactor
            self.f = scf


@target('pybrain.rl.environments.functions.transformations.BBOBTransformationFunction')
class BBOBTransformationFunction:
    def __init__(self, basef, translate=True, rotate=False, conditioning=None, asymmetry=None, oscillate=False, penalized=0, desiredValue=1e-08, gnoise=None, unoise=None, cnoise=None, sparse=True):
        FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
        self._name = basef.__class__.__name__
        self.desiredValue = desiredValue
        self.toBeMinimized = basef.toBeMinimized
        if self.xdim < 500:
            sparse = False
        if sparse:
            try:
                from scipy.sparse import csc_matrix
            except:
                sparse = False
        if translate:
            self.xopt = (rand(self.xdim) - 0.5) * 9.8
        if conditioning:
            prefix = generateDiags(conditioning, self.xdim)
            if sparse:
                prefix = csc_matrix(prefix)
                if rotate:
                    prefix = prefix * sparse_orth(self.xdim)
                    if oscillate or not asymmetry:
                        prefix = sparse_orth(self.xdim) * prefix
            elif rotate:
                prefix = dot(prefix, dense_orth(self.xdim))
                if oscillate or not asymmetry:
                    prefix = dot(dense_orth(self.xdim), prefix)
        elif rotate and asymmetry and (not oscillate):
            if sparse:
                prefix = sparse_orth(self.xdim)
            else:
                prefix = dense_orth(self.xdim)
        elif sparse:
            prefix = None
        else:
            prefix = eye(self.xdim)
        if penalized != 0:
            if self.penalized:
                penalized = 0
            else:
                self.penalized = True
        if rotate:
            if sparse:
                r = sparse_orth(self.xdim)
                tmp1 = lambda x: ravel(x * r)
            else:
                r = dense_orth(self.xdim)
                tmp1 = lambda x: dot(x, r)
        else:
            tmp1 = lambda x: x
        if oscillate:
            tmp2 = lambda x: BBOBTransformationFunction.oscillatify(tmp1(x))
        else:
            tmp2 = tmp1
        if asymmetry is not None:
            tmp3 = lambda x: BBOBTransformationFunction.asymmetrify(tmp2(x), asymmetry)
        else:
            tmp3 = tmp2
        ntmp = None
        if gnoise:
            ntmp = lambda f: f * exp(gnoise * gauss(0, 1))
        elif unoise:
            alpha = 0.49 * (1.0 / self.xdim) * unoise
            ntmp = lambda f: f * power(random(), unoise) * max(1, power(1000000000.0 / (f + 1e-99), alpha * random()))
        elif cnoise:
            alpha, beta = cnoise
            ntmp = lambda f: f + alpha * max(0, 1000 * (random() < beta) * gauss(0, 1) / (abs(gauss(0, 1)) + 1e-199))
    
        def noisetrans(f):
            if ntmp is None or f < 1e-08:
                return f
            else:
                return ntmp(f) + 1.01e-08
        if sparse:
            if prefix is None:
                tmp4 = lambda x: tmp3(x - self.xopt)
            else:
                tmp4 = lambda x: ravel(prefix * tmp3(x - self.xopt))
        else:
            tmp4 = lambda x: dot(prefix, tmp3(x - self.xopt))
        self.f = lambda x: noisetrans(basef.f(tmp4(x))) + penalized * penalize(x)

    @staticmethod
    def asymmetrify(x, beta=0.2):
        dim = len(x)
        return x * (x <= 0) + (x > 0) * exp((1 + beta * arange(dim) / (dim - 1.0) * sqrt(abs(x))) * log(abs(x) + 1e-100))

    @staticmethod
    def _oscillatify(x):
        if isinstance(x, float):
            res = [x]
        else:
            res = x.copy()
        for i, xi in enumerate(res):
            if xi == 0:
                continue
            elif xi > 0:
                s = 1
                c1 = 10
                c2 = 7.9
            else:
                s = 1
                c1 = 5.5
                c2 = 3.1
            res[i] = s * exp(log(abs(xi)) + 0.049 * (sin(c1 * xi) + sin(c2 * xi)))
        if isinstance(x, float):
            return res[0]
        else:
            return res

    @staticmethod
    def oscillatify(x):
        return exp(log(abs(x) + 1e-100) + (x > 0) * 0.049 * (sin(10 * x) + sin(7.9 * x)) + (x < 0) * 0.049 * (sin(5.5 * x) + sin(3.1 * x)))


@target('pybrain.rl.environments.functions.unimodal.SphereFunction')
class SphereFunction:
    def f(self, x):
        return dot(x, x)


@target('pybrain.rl.environments.functions.unimodal.SchwefelFunction')
class SchwefelFunction:
    def f(self, x):
        s = 0
        for i in range(len(x)):
            s += sum(x[:i]) ** 2
        return s


@target('pybrain.rl.environments.functions.unimodal.CigarFunction')
class CigarFunction:
    def f(self, x):
        return x[0] ** 2 + 1000000.0 * dot(x[1:], x[1:])


@target('pybrain.rl.environments.functions.unimodal.TabletFunction')
class TabletFunction:
    def f(self, x):
        return 1000000.0 * x[0] ** 2 + dot(x[1:], x[1:])


@target('pybrain.rl.environments.functions.unimodal.ElliFunction')
class ElliFunction:
    def __init__(self, *args, **kwargs):
        FunctionEnvironment.__init__(self, *args, **kwargs)
        self._as = array([power(self.a, 2 * i / (self.xdim - 1.0)) for i in range(self.xdim)])

    def f(self, x):
        return dot(self._as * x, x)


@target('pybrain.rl.environments.functions.unimodal.StepElliFunction')
class StepElliFunction:
    def __init__(self, *args, **kwargs):
        ElliFunction.__init__(self, *args, **kwargs)
        self._R = orth(rand(self.xdim, self.xdim))

    def f(self, x):
        z = floor(0.5 + x) * (x > 0.5) + floor(0.5 + 10 * x) / 10.0 * (x <= 0.5)
        z = dot(self._R, z)
        return 0.1 * max(0.0001 * abs(z[0]), ElliFunction.f(self, z))


@target('pybrain.rl.environments.functions.unimodal.SharpRFunctionBis')
class SharpRFunctionBis:
    def f(self, x):
        return x[0] ** 2 + 100 * sqrt(dot(x[1:], x[1:]))


@target('pybrain.rl.environments.functions.unimodal.DiffPowFunction')
class DiffPowFunction:
    def f(self, x):
        s = 0
        for i in range(len(x)):
            s += abs(x[i]) ** (2 + self.a * i / (len(x) - 1))
        return s


@target('pybrain.rl.environments.functions.unimodal.RosenbrockFunction')
class RosenbrockFunction:
    def __init__(self, xdim=2, xopt=None):
        assert xdim >= self.xdimMin and (not (self.xdimMax != None and xdim > self.xdimMax))
        self.xdim = xdim
        if xopt is None:
            self.xopt = ones(self.xdim)
        else:
            self.xopt = xopt
        self.reset()

    def f(self, x):
        return sum(100 * (x[:-1] ** 2 - x[1:]) ** 2 + (x[:-1] - 1) ** 2)


@target('pybrain.rl.environments.functions.unimodal.GlasmachersFunction')
class GlasmachersFunction:
    def f(self, x):
        m = self.xdim // 2
        a = self.c * norm(x[:m])
        b = norm(x[m:])
        return a + b + sqrt(2 * a * b + b ** 2)


@target('pybrain.rl.environments.functions.unimodal.BoundedLinear')
class BoundedLinear:
    def __init__(self, *args, **kwargs):
        FunctionEnvironment.__init__(self, *args, **kwargs)
        self._w = [power(10, i / (self.xdim - 1.0)) for i in range(self.xdim)]
        self._signs = sign(randn(self.xdim))

    def f(self, x):
        x_ = x.copy()
        for i, xi in enumerate(x):
            if xi * self._signs[i] > 5:
                x_[i] = self._signs[i] * 5
        return 5 * sum(self._w) - dot(self._w * self._signs, x_)


@target('pybrain.rl.environments.functions.multimodal.FunnelFunction')
class FunnelFunction:
    def f(self, x):
        return min(dot(x - 2.5 * ones(self.xdim), x - 2.5 * ones(self.xdim)), self.funnelDepth * self.xdim + self.funnelSize * dot(x + 2.5 * ones(self.xdim), x + 2.5 * ones(self.xdim)))


@target('pybrain.rl.environments.functions.multimodal.RastriginFunction')
class RastriginFunction:
    def __init__(self, xdim=1, a=1, xopt=None):
        self.a = a
        FunctionEnvironment.__init__(self, xdim, xopt)

    def f(self, x):
        s = 0
        for i, xi in enumerate(x):
            ai = power(self.a, (i - 1) / (self.xdim - 1))
            s += (ai * xi) ** 2 - 10 * cos(2 * pi * ai * xi)
        return s + 10 * len(x)


@target('pybrain.rl.environments.functions.multimodal.WeierstrassFunction')
class WeierstrassFunction:
    def f(self, x):
        a = 0.5
        b = 3
        res = 0
        for k in range(self.kmax):
            res += sum(a ** k * cos(2 * pi * b ** k * (x + 0.5)))
            res -= self.xdim * a ** k * cos(2 * pi * b ** k * 0.5)
        return res


@target('pybrain.rl.environments.functions.multimodal.SchaffersF7Function')
class SchaffersF7Function:
    def f(self, x):
        s = sqrt(x[:-1] ** 2 + x[1:] ** 2)
        return sum(sqrt(s) * (1 + sin(50 * power(s, 0.2)) ** 2)) ** 2


@target('pybrain.rl.environments.functions.multimodal.AckleyFunction')
class AckleyFunction:
    def f(self, x):
        res = -20 * exp(-0.2 * sqrt(1.0 / self.xdim * sum(x ** 2)))
        res -= exp(1.0 / self.xdim * sum(cos(2 * pi * x)))
        res += 20 + exp(1)
        return res


@target('pybrain.rl.environments.functions.multimodal.GriewankFunction')
class GriewankFunction:
    def f(self, x):
        prod = 1
        for i, xi in enumerate(x):
            prod *= cos(xi / sqrt(i + 1))
        return 1 + sum(x ** 2) / 4000.0 - prod


@target('pybrain.rl.environments.functions.multimodal.BucheRastriginFunction')
class BucheRastriginFunction:
    def f(self, x):
        z = x.copy()
        for i in range(self.xdim):
            e = i / (self.xdim - 1.0) / 2.0
            if x[i] <= 0 or i % 2 == 0:
                e += 1
            z[i] *= power(10, e)
        return dot(z, z) + 10 * self.xdim - 10 * sum(cos(2 * pi * z))


@target('pybrain.rl.environments.functions.multimodal.GriewankRosenbrockFunction')
class GriewankRosenbrockFunction:
    def f(self, x):
        s = 100 * (x[:-1] ** 2 - x[1:]) ** 2 + (x[:-1] - 1) ** 2
        return 1 / (self.xdim - 1.0) * sum(s / 4000.0 - cos(s)) + 1


@target('pybrain.rl.environments.functions.multimodal.Schwefel_2_13Function')
class Schwefel_2_13Function:
    def __init__(self, *args, **kwargs):
        MultiModalFunction.__init__(self, *args, **kwargs)
        self.A = floor(rand(self.xdim, self.xdim) * 200) - 100
        self.B = floor(rand(self.xdim, self.xdim) * 200) - 100
        self.alphas = 2 * pi * rand(self.xdim) - pi

    def f(self, x):
        res = 0
        for i in range(self.xdim):
            Ai = sum(self.A[i] * sin(self.alphas) + self.B[i] * cos(self.alphas))
            Bix = sum(self.A[i] * sin(x) + self.B[i] * cos(x))
            res += (Ai - Bix) ** 2
        return res


@target('pybrain.rl.environments.functions.multimodal.Schwefel20Function')
class Schwefel20Function:
    def __init__(self, *args, **kwargs):
        MultiModalFunction.__init__(self, *args, **kwargs)
        self._signs = sign(randn(self.xdim))
        self._diags = generateDiags(10, self.xdim)
        self.xopt = self._k2 * self._signs

    def f(self, x):
        z = 2 * x * self._signs
        z[1:] += (z[:-1] - self.xopt[:-1]) * 0.25
        z = 100 * (dot(self._diags, z - self.xopt) + self.xopt)
        return -1.0 / float(self.xdim) * sum(z * sin(sqrt(abs(z)))) + self._k + 100 * penalize(z / 100.0)


@target('pybrain.rl.environments.functions.multimodal.GallagherGauss101MeFunction')
class GallagherGauss101MeFunction:
    def __init__(self, *args, **kwargs):
        MultiModalFunction.__init__(self, *args, **kwargs)
        print((self.numPeaks, self.xdim))
        self._opts = [(rand(self.xdim) - 0.5) * 8]
        self._opts.extend([(rand(self.xdim) - 0.5) * 9.8 for _ in range(self.numPeaks - 1)])
        alphas = [power(self.maxCond, 2 * i / float(self.numPeaks - 2)) for i in range(self.numPeaks - 1)]
        shuffle(alphas)
        self._covs = [generateDiags(alpha, self.xdim, shuffled=True) / power(alpha, 0.25) for alpha in [self.optCond] + alphas]
        self._R = orth(rand(self.xdim, self.xdim))
        self._ws = [10] + [1.1 + 8 * i / float(self.numPeaks - 2) for i in range(self.numPeaks - 1)]

    def f(self, x):
        rxy = [dot(self._R, x - o) for o in self._opts]
        return (10 - max([self._ws[i] * exp(-1 / (2.0 * self.xdim) * dot(rxy[i], dot(self._covs[i], rxy[i]))) for i in range(self.numPeaks)])) ** 2


@target('pybrain.rl.environments.functions.multimodal.KatsuuraFunction')
class KatsuuraFunction:
    def f(self, x):
        return -1 + prod([power(1 + (i + 1) * sum([abs(2 ** j * x[i] - int(2 ** j * x[i])) * 2 ** (-j) for j in range(1, 33)]), 10.0 / power(self.xdim, 1.2)) for i in range(self.xdim)])


@target('pybrain.rl.environments.functions.multimodal.LunacekBiRastriginFunction')
class LunacekBiRastriginFunction:
    def __init__(self, *args, **kwargs):
        MultiModalFunction.__init__(self, *args, **kwargs)
        self._mu0 = 2.5
        self._s = 1 - 1 / (2 * sqrt(self.xdim + 20) - 8.2)
        self._mu1 = -sqrt((self._mu0 ** 2 - 1) / self._s)
        self._signs = sign(randn(self.xdim))
        self._R1 = orth(rand(self.xdim, self.xdim))
        self._R2 = orth(rand(self.xdim, self.xdim))
        self._diags = generateDiags(100, self.xdim)

    def f(self, x):
        x_ = x * self._signs * 2
        z = dot(self._R1, dot(self._diags, dot(self._R2, x_ - self._mu0)))
        return min(dot(x_ - self._mu0, x_ - self._mu0), self.xdim + self._s * dot(x_ - self._mu1, x_ - self._mu1)) + 10 * (self.xdim - sum(cos(2 * pi * z)))


@target('pybrain.rl.environments.functions.multimodal.BraninFunction')
class BraninFunction:
    def f(self, x):
        return self._a * (x[1] - self._b * x[0] ** 2 + self._c * x[0] - self._d) ** 2 + self._e * ((1 - self._f) * cos(x[0]) + 1) - self.vopt


@target('pybrain.rl.environments.functions.bbob2010.bbob_f1')
def bbob_f1(dim):
    return BBOBTransformationFunction(SphereFunction(dim))


@target('pybrain.rl.environments.functions.bbob2010.bbob_f2')
def bbob_f2(dim):
    return BBOBTransformationFunction(ElliFunction(dim), oscillate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f3')
def bbob_f3(dim):
    return BBOBTransformationFunction(RastriginFunction(dim), oscillate=True, asymmetry=0.2)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f4')
def bbob_f4(dim):
    return BBOBTransformationFunction(BucheRastriginFunction(dim), oscillate=True, penalized=100)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f5')
def bbob_f5(dim):
    return BBOBTransformationFunction(BoundedLinear(dim), translate=False)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f7')
def bbob_f7(dim):
    return BBOBTransformationFunction(StepElliFunction(dim), conditioning=10, penalized=1, rotate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f8')
def bbob_f8(dim):
    return BBOBTransformationFunction(RosenbrockFunction(dim))


@target('pybrain.rl.environments.functions.bbob2010.bbob_f9')
def bbob_f9(dim):
    return BBOBTransformationFunction(RosenbrockFunction(dim), rotate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f10')
def bbob_f10(dim):
    return BBOBTransformationFunction(ElliFunction(dim), oscillate=True, rotate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f11')
def bbob_f11(dim):
    return BBOBTransformationFunction(TabletFunction(dim), oscillate=True, rotate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f12')
def bbob_f12(dim):
    return BBOBTransformationFunction(CigarFunction(dim), asymmetry=0.5, rotate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f13')
def bbob_f13(dim):
    return BBOBTransformationFunction(SharpRFunctionBis(dim), conditioning=10, rotate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f14')
def bbob_f14(dim):
    return BBOBTransformationFunction(DiffPowFunction(dim, a=4), rotate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f15')
def bbob_f15(dim):
    return BBOBTransformationFunction(RastriginFunction(dim), conditioning=10, oscillate=True, asymmetry=0.2, rotate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f16')
def bbob_f16(dim):
    return BBOBTransformationFunction(WeierstrassFunction(dim, kmax=11), conditioning=0.01, oscillate=True, rotate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f17')
def bbob_f17(dim):
    return BBOBTransformationFunction(SchaffersF7Function(dim), conditioning=10, asymmetry=0.5, penalized=10, rotate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f18')
def bbob_f18(dim):
    return BBOBTransformationFunction(SchaffersF7Function(dim), conditioning=1000, asymmetry=0.5, penalized=10, rotate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f19')
def bbob_f19(dim):
    return BBOBTransformationFunction(GriewankRosenbrockFunction(dim), rotate=True)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f20')
def bbob_f20(dim):
    return BBOBTransformationFunction(Schwefel20Function(dim), translate=False)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f21')
def bbob_f21(dim):
    return BBOBTransformationFunction(GallagherGauss101MeFunction(dim), translate=False)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f22')
def bbob_f22(dim):
    return BBOBTransformationFunction(GallagherGauss21HiFunction(dim), translate=False)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f23')
def bbob_f23(dim):
    return BBOBTransformationFunction(KatsuuraFunction(dim), rotate=True, conditioning=100)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f24')
def bbob_f24(dim):
    return BBOBTransformationFunction(LunacekBiRastriginFunction(dim), translate=False)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f101')
def bbob_f101(dim):
    return BBOBTransformationFunction(SphereFunction(dim), gnoise=0.01, penalized=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f102')
def bbob_f102(dim):
    return BBOBTransformationFunction(SphereFunction(dim), unoise=0.01, penalized=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f103')
def bbob_f103(dim):
    return BBOBTransformationFunction(SphereFunction(dim), cnoise=(0.01, 0.05), penalized=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f104')
def bbob_f104(dim):
    return BBOBTransformationFunction(RosenbrockFunction(dim), gnoise=0.01, penalized=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f105')
def bbob_f105(dim):
    return BBOBTransformationFunction(RosenbrockFunction(dim), unoise=0.01, penalized=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f106')
def bbob_f106(dim):
    return BBOBTransformationFunction(RosenbrockFunction(dim), cnoise=(0.01, 0.05), penalized=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f107')
def bbob_f107(dim):
    return BBOBTransformationFunction(SphereFunction(dim), gnoise=1, penalized=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f108')
def bbob_f108(dim):
    return BBOBTransformationFunction(SphereFunction(dim), unoise=1, penalized=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f109')
def bbob_f109(dim):
    return BBOBTransformationFunction(SphereFunction(dim), cnoise=(1, 0.2), penalized=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f110')
def bbob_f110(dim):
    return BBOBTransformationFunction(RosenbrockFunction(dim), gnoise=1, penalized=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f111')
def bbob_f111(dim):
    return BBOBTransformationFunction(RosenbrockFunction(dim), unoise=1, penalized=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f112')
def bbob_f112(dim):
    return BBOBTransformationFunction(RosenbrockFunction(dim), cnoise=(1, 0.2), penalized=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f113')
def bbob_f113(dim):
    return BBOBTransformationFunction(StepElliFunction(dim), conditioning=10, penalized=1, rotate=True, gnoise=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f114')
def bbob_f114(dim):
    return BBOBTransformationFunction(StepElliFunction(dim), conditioning=10, penalized=1, rotate=True, unoise=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f115')
def bbob_f115(dim):
    return BBOBTransformationFunction(StepElliFunction(dim), conditioning=10, penalized=1, rotate=True, cnoise=(1, 0.2))


@target('pybrain.rl.environments.functions.bbob2010.bbob_f116')
def bbob_f116(dim):
    return BBOBTransformationFunction(ElliFunction(dim, a=100), oscillate=True, penalized=1, rotate=True, gnoise=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f117')
def bbob_f117(dim):
    return BBOBTransformationFunction(ElliFunction(dim, a=100), oscillate=True, penalized=1, rotate=True, unoise=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f118')
def bbob_f118(dim):
    return BBOBTransformationFunction(ElliFunction(dim, a=100), oscillate=True, penalized=1, rotate=True, cnoise=(1, 0.2))


@target('pybrain.rl.environments.functions.bbob2010.bbob_f119')
def bbob_f119(dim):
    return BBOBTransformationFunction(DiffPowFunction(dim), penalized=1, rotate=True, gnoise=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f120')
def bbob_f120(dim):
    return BBOBTransformationFunction(DiffPowFunction(dim), penalized=1, rotate=True, unoise=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f121')
def bbob_f121(dim):
    return BBOBTransformationFunction(DiffPowFunction(dim), penalized=1, rotate=True, cnoise=(1, 0.2))


@target('pybrain.rl.environments.functions.bbob2010.bbob_f122')
def bbob_f122(dim):
    return BBOBTransformationFunction(SchaffersF7Function(dim), conditioning=10, asymmetry=0.5, penalized=1, rotate=True, gnoise=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f123')
def bbob_f123(dim):
    return BBOBTransformationFunction(SchaffersF7Function(dim), conditioning=10, asymmetry=0.5, penalized=1, rotate=True, unoise=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f124')
def bbob_f124(dim):
    return BBOBTransformationFunction(SchaffersF7Function(dim), conditioning=10, asymmetry=0.5, penalized=1, rotate=True, cnoise=(1, 0.2))


@target('pybrain.rl.environments.functions.bbob2010.bbob_f125')
def bbob_f125(dim):
    return BBOBTransformationFunction(GriewankRosenbrockFunction(dim), penalized=1, rotate=True, gnoise=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f126')
def bbob_f126(dim):
    return BBOBTransformationFunction(GriewankRosenbrockFunction(dim), penalized=1, rotate=True, unoise=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f127')
def bbob_f127(dim):
    return BBOBTransformationFunction(GriewankRosenbrockFunction(dim), penalized=1, rotate=True, cnoise=(1, 0.2))


@target('pybrain.rl.environments.functions.bbob2010.bbob_f128')
def bbob_f128(dim):
    return BBOBTransformationFunction(GallagherGauss101MeFunction(dim), translate=False, penalized=1, gnoise=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f129')
def bbob_f129(dim):
    return BBOBTransformationFunction(GallagherGauss101MeFunction(dim), translate=False, penalized=1, unoise=1)


@target('pybrain.rl.environments.functions.bbob2010.bbob_f130')
def bbob_f130(dim):
    return BBOBTransformationFunction(GallagherGauss101MeFunction(dim), translate=False, penalized=1, cnoise=(1, 0.2))


@target('pybrain.rl.environments.functions.multiobjective.MultiObjectiveFunction')
class MultiObjectiveFunction:
    def outfeasible(self):
        return self.feasible

    def outviolation(self):
        return self.violation

    def outdim(self):
        return self.ydim

    def __call__(self, x):
        if isinstance(x, ParameterContainer):
            x = x.params
        assert type(x) == ndarray, 'FunctionEnvironment: Input not understood: ' + str(type(x))
        res = self.f(x)
        return res


@target('pybrain.rl.environments.functions.multiobjective.SchBenchmark')
class SchBenchmark:
    def f(self, x):
        return -array([x ** 2, (x - 2) ** 2])


@target('pybrain.rl.environments.functions.multiobjective.FonBenchmark')
class FonBenchmark:
    def f(self, x):
        f1 = 1 - exp(-sum((x - 1 / sqrt(3)) ** 2))
        f2 = 1 - exp(-sum((x + 1 / sqrt(3)) ** 2))
        return -array([f1, f2])


@target('pybrain.rl.environments.functions.multiobjective.PolBenchmark')
class PolBenchmark:
    def f(self, x):
        B1 = 0.5 * sin(x[0]) - 2 * cos(x[0]) + sin(x[1]) - 1.5 * cos(x[1])
        B2 = 1.5 * sin(x[0]) - cos(x[0]) + 2 * sin(x[1]) - 0.5 * cos(x[1])
        f1 = 1 + (self._A1 - B1) ** 2 + (self._A2 - B2) ** 2
        f2 = (x[0] + 3) ** 2 + (x[1] + 1) ** 2
        return -array([f1, f2])


@target('pybrain.rl.environments.functions.multiobjective.KurBenchmark')
class KurBenchmark:
    def f(self, x):
        f1 = sum(-10 * exp(-0.2 * sqrt(x[:-1] ** 2 + x[1:] ** 2)))
        f2 = sum(power(abs(x), 0.8) + 5 * sin(x ** 3))
        return -array([f1, f2])


@target('pybrain.rl.environments.functions.multiobjective.Deb')
class Deb:
    def __init__(self):
        self.xbound = []
        self.xbound.append((0.1, 1.0))
        self.xbound.append((0.0, 5.0))
        self.constrained = False

    def f(self, x):
        f1 = x[0]
        f2 = (1 + x[1]) / x[0]
        return -array([f1, f2])


@target('pybrain.rl.environments.functions.multiobjective.ConstDeb')
class ConstDeb:
    def __init__(self):
        self.feasible = None
        self.xbound = []
        self.xbound.append((0.1, 1.0))
        self.xbound.append((0.0, 5.0))
        self.constrained = True

    def g(self, x):
        g1 = x[1] + 9.0 * x[0] - 6.0
        g2 = -x[1] + 9.0 * x[0] - 1.0
        if g1 >= 0 and g2 >= 0:
            return (True, array([0.0, 0.0]))
        return (False, array([g1, g2]))

    def f(self, x):
        self.feasible, self.violation = self.g(x)
        ' \n        not nice, due to the fact that oppositeFunction does not used\n        the instance of this class for the evaluator but creates a new instance\n        of class MultiObjectiveFunction\n        '
        MultiObjectiveFunction.feasible = self.feasible
        MultiObjectiveFunction.violation = self.violation
        f1 = x[0]
        f2 = (1 + x[1]) / x[0]
        return -array([f1, f2])


@target('pybrain.rl.environments.functions.multiobjective.Pol')
class Pol:
    def __init__(self):
        self.xbound = []
        self.xbound.append((-pi, pi))
        self.xbound.append((-pi, pi))
        self.constrained = False

    def f(self, x):
        B1 = 0.5 * sin(x[0]) - 2 * cos(x[0]) + sin(x[1]) - 1.5 * cos(x[1])
        B2 = 1.5 * sin(x[0]) - cos(x[0]) + 2 * sin(x[1]) - 0.5 * cos(x[1])
        f1 = 1 + (self._A1 - B1) ** 2 + (self._A2 - B2) ** 2
        f2 = (x[0] + 3) ** 2 + (x[1] + 1) ** 2
        return -array([f1, f2])


@target('pybrain.rl.environments.functions.multiobjective.ConstSrn')
class ConstSrn:
    def __init__(self):
        self.feasible = None
        self.xbound = []
        self.xbound.append((-20.0, 20.0))
        self.xbound.append((-20.0, 20.0))
        self.constrained = True

    def g(self, x):
        g1 = 225 - (x[1] ** 2 + x[0] ** 2)
        g2 = 3 * x[1] - x[0] - 10.0
        if g1 >= 0 and g2 >= 0:
            return (True, array([0.0, 0.0]))
        return (False, array([g1, g2]))

    def f(self, x):
        self.feasible, self.violation = self.g(x)
        MultiObjectiveFunction.feasible = self.feasible
        MultiObjectiveFunction.violation = self.violation
        f1 = 2 + (x[0] - 2) ** 2 + (x[1] - 1) ** 2
        f2 = 9 * x[0] - (x[1] - 1) ** 2
        return -array([f1, f2])


@target('pybrain.rl.environments.functions.multiobjective.ConstOsy')
class ConstOsy:
    def __init__(self):
        self.feasible = None
        self.xbound = []
        self.xbound.append((0.0, 10.0))
        self.xbound.append((0.0, 10.0))
        self.xbound.append((1.0, 5.0))
        self.xbound.append((0.0, 6.0))
        self.xbound.append((1.0, 5.0))
        self.xbound.append((0.0, 10.0))
        self.constrained = True

    def f(self, x):
        self.feasible, self.violation = self.g(x)
        MultiObjectiveFunction.feasible = self.feasible
        MultiObjectiveFunction.violation = self.violation
        f1 = -(25.0 * (x[0] - 2.0) ** 2 + (x[1] - 2.0) ** 2 + (x[2] - 1.0) ** 2 + (x[3] - 4.0) ** 2 + (x[4] - 1.0) ** 2)
        f2 = x[0] ** 2 + x[1] ** 2 + x[2] ** 2 + x[3] ** 2 + x[4] ** 2 + x[5] ** 2
        return -array([f1, f2])


@target('pybrain.rl.environments.functions.multiobjective.ConstTnk')
class ConstTnk:
    def __init__(self):
        self.feasible = None
        self.xbound = []
        self.xbound.append((0.0, pi))
        self.xbound.append((0.0, pi))
        self.constrained = True

    def g(self, x):
        if x[1] == 0.0:
            A = pi / 2.0
        else:
            A = arctan(x[0] / x[1])
        g1 = x[1] ** 2 + x[0] ** 2 - 1.0 - 0.1 * cos(16.0 * A)
        g2 = 0.5 - (x[0] - 0.5) ** 2 - (x[1] - 0.5) ** 2
        if g1 >= 0 and g2 >= 0:
            return (True, array([0.0, 0.0]))
        return (False, array([g1, g2]))

    def f(self, x):
        self.feasible, self.violation = self.g(x)
        MultiObjectiveFunction.feasible = self.feasible
        MultiObjectiveFunction.violation = self.violation
        f1 = x[0]
        f2 = x[1]
        return -array([f1, f2])


@target('pybrain.rl.environments.functions.multiobjective.ConstBnh')
class ConstBnh:
    def __init__(self):
        self.feasible = None
        self.xbound = []
        self.xbound.append((0.0, 5.0))
        self.xbound.append((0.0, 3.0))
        self.constrained = True

    def g(self, x):
        g1 = 25 - (x[0] - 5.0) ** 2 - x[1] ** 2
        g2 = (x[0] - 8.0) ** 2 + (x[1] + 3.0) ** 2 - 7.7
        if g1 >= 0 and g2 >= 0:
            return (True, array([0.0, 0.0]))
        return (False, array([g1, g2]))

    def f(self, x):
        self.feasible, self.violation = self.g(x)
        MultiObjectiveFunction.feasible = self.feasible
        MultiObjectiveFunction.violation = self.violation
        f1 = 4 * x[0] ** 2 + 4 * x[1] ** 2
        f2 = (x[0] - 5) ** 2 + (x[1] - 5) ** 2
        return -array([f1, f2])

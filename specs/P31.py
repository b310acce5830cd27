

@target('pybrain.rl.learners.modelbased.policyiteration.trueValues')
def trueValues(T, R, discountFactor):
    assert discountFactor < 1
    distr = T.copy()
    res = dot(T, R)
    for i in range(1, int(10 / (1.0 - discountFactor))):
        distr = dot(distr, T)
        res += discountFactor ** i * dot(distr, R)
    return res


@target('pybrain.rl.learners.modelbased.policyiteration.trueQValues')
def trueQValues(Ts, R, discountFactor, policy):
    T = collapsedTransitions(Ts, policy)
    V = trueValues(T, R, discountFactor)
    Vnext = V * discountFactor + R
    numA = len(Ts)
    dim = len(R)
    Qs = zeros((dim, numA))
    for si in range(dim):
        for a in range(numA):
            Qs[si, a] = dot(Ts[a][si], Vnext)
    return Qs


@target('pybrain.rl.learners.modelbased.policyiteration.collapsedTransitions')
def collapsedTransitions(Ts, policy):
    res = zeros_like(Ts[0])
    dim = len(Ts[0])
    for ai, ap in enumerate(policy.T):
        res += Ts[ai] * repmat(ap, dim, 1).T
    return res


@target('pybrain.rl.learners.modelbased.policyiteration.greedyPolicy')
def greedyPolicy(Ts, R, discountFactor, V):
    dim = len(V)
    numA = len(Ts)
    Vnext = V * discountFactor + R
    policy = zeros((dim, numA))
    for si in range(dim):
        actions = all_argmax([dot(T[si, :], Vnext) for T in Ts])
        for a in actions:
            policy[si, a] = 1.0 / len(actions)
    return (policy, collapsedTransitions(Ts, policy))


@target('pybrain.rl.learners.modelbased.policyiteration.greedyQPolicy')
def greedyQPolicy(Qs):
    dim = len(Qs)
    numA = len(Qs[0])
    policy = zeros((dim, numA))
    for si in range(dim):
        actions = all_argmax(Qs[si])
        for a in actions:
            policy[si, a] = 1.0 / len(actions)
    return policy


@target('pybrain.rl.learners.modelbased.policyiteration.randomPolicy')
def randomPolicy(Ts):
    numA = len(Ts)
    dim = len(Ts[0])
    return (ones((dim, numA)) / float(numA), mean(array(Ts), axis=0))


@target('pybrain.rl.learners.modelbased.policyiteration.randomDeterministic')
def randomDeterministic(Ts):
    numA = len(Ts)
    dim = len(Ts[0])
    choices = (rand(dim) * numA).astype(int)
    policy = zeros((dim, numA))
    for si, a in enumerate(choices):
        policy[si, a] = 1
    return (policy, collapsedTransitions(Ts, policy))


@target('pybrain.rl.learners.modelbased.policyiteration.policyIteration')
def policyIteration(Ts, R, discountFactor, VEvaluator=None, initpolicy=None, maxIters=20):
    if initpolicy is None:
        policy, T = randomPolicy(Ts)
    else:
        policy = initpolicy
        T = collapsedTransitions(Ts, policy)
    if VEvaluator is None:
        VEvaluator = lambda T: trueValues(T, R, discountFactor)
    while maxIters > 0:
        V = VEvaluator(T)
        newpolicy, T = greedyPolicy(Ts, R, discountFactor, V)
        if sum(ravel(abs(newpolicy - policy))) < 0.001:
            return (policy, T)
        policy = newpolicy
        maxIters -= 1
    return (policy, T)


@target('pybrain.rl.learners.modelbased.leastsquares.trueFeatureStats')
def trueFeatureStats(T, R, fMap, discountFactor, stateProp=1, MAT_LIMIT=100000000.0):
    dim = len(fMap)
    numStates = len(T)
    statMatrix = zeros((dim, dim))
    statResidual = zeros(dim)
    ss = list(range(numStates))
    repVersion = False
    if stateProp < 1:
        ss = random.sample(ss, int(numStates * stateProp))
    elif dim * numStates ** 2 < MAT_LIMIT:
        repVersion = True
    if repVersion:
        tmp1 = tile(fMap, (numStates, 1, 1))
        tmp2 = transpose(tmp1, (2, 1, 0))
        tmp3 = tmp2 - discountFactor * tmp1
        tmp4 = tile(T, (dim, 1, 1))
        tmp4 *= transpose(tmp1, (1, 2, 0))
        statMatrix = tensordot(tmp3, tmp4, axes=[[0, 2], [1, 2]]).T
        statResidual = dot(R, dot(fMap, T).T)
    else:
        for sto in ss:
            tmp = fMap - discountFactor * repmat(fMap[:, sto], numStates, 1).T
            tmp2 = fMap * repmat(T[:, sto], dim, 1)
            statMatrix += dot(tmp2, tmp.T)
            statResidual += R[sto] * dot(fMap, T[:, sto])
    return (statMatrix, statResidual)


@target('pybrain.rl.learners.modelbased.leastsquares.LSTD_values')
def LSTD_values(T, R, fMap, discountFactor, **kwargs):
    statMatrix, statResidual = trueFeatureStats(T, R, fMap, discountFactor, **kwargs)
    weights = lstsq(statMatrix, statResidual)[0]
    return dot(weights, fMap)


@target('pybrain.rl.learners.modelbased.leastsquares.LSTD_Qvalues')
def LSTD_Qvalues(Ts, policy, R, fMap, discountFactor):
    numA = len(Ts)
    dim = len(Ts[0])
    numF = len(fMap)
    fMapRep = zeros((numF * numA, dim * numA))
    for a in range(numA):
        fMapRep[numF * a:numF * (a + 1), dim * a:dim * (a + 1)] = fMap
    statMatrix = zeros((numF * numA, numF * numA))
    statResidual = zeros(numF * numA)
    for sto in range(dim):
        r = R[sto]
        fto = zeros(numF * numA)
        for nextA in range(numA):
            fto += fMapRep[:, sto + nextA * dim] * policy[sto][nextA]
        for sfrom in range(dim):
            for a in range(numA):
                ffrom = fMapRep[:, sfrom + a * dim]
                prob = Ts[a][sfrom, sto]
                statMatrix += outer(ffrom, ffrom - discountFactor * fto) * prob
                statResidual += ffrom * r * prob
    Qs = zeros((dim, numA))
    w = lstsq(statMatrix, statResidual)[0]
    for a in range(numA):
        Qs[:, a] = dot(w[numF * a:numF * (a + 1)], fMap)
    return Qs


@target('pybrain.rl.learners.modelbased.leastsquares.LSPI_policy')
def LSPI_policy(fMap, Ts, R, discountFactor, initpolicy=None, maxIters=20):
    if initpolicy is None:
        policy, _ = randomPolicy(Ts)
    else:
        policy = initpolicy
    while maxIters > 0:
        Qs = LSTD_Qvalues(Ts, policy, R, fMap, discountFactor)
        newpolicy = greedyQPolicy(Qs)
        if sum(ravel(abs(newpolicy - policy))) < 0.001:
            return (policy, collapsedTransitions(Ts, policy))
        policy = newpolicy
        maxIters -= 1
    return (policy, collapsedTransitions(Ts, policy))


@target('pybrain.rl.learners.modelbased.leastsquares.LSTD_PI_policy')
def LSTD_PI_policy(fMap, Ts, R, discountFactor, initpolicy=None, maxIters=20):

    def veval(T):
        return LSTD_values(T, R, fMap, discountFactor)
    return policyIteration(Ts, R, discountFactor, VEvaluator=veval, initpolicy=initpolicy, maxIters=maxIters)

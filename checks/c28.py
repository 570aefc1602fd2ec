"""C28: the guarantees hold in 64 bit mode."""

import numpy as np
from scipy import special

from harness import mcmcgen, ref, reggen
from harness.core import require, sub
from checks import c03, c05, c06, c07, c08, c15, c21


def S(*args, small='f32', large='f32', **kw):
    return dict(mcmcgen.shape(*args, small=small, **kw), large=large)


MENU = [
    S(20, 2, 4, 3, 'small', minpts=2, T=40),
    S(30, 3, 5, 2, 'mid', minpts=5, ratios=True, T=60, large='f64'),
    S(25, 2, 5, 3, 'u8', small='f64', large='f64', rb=4, cb=5, T=60),
    S(40, 3, 4, 3, 'zeros', small='f16', large='f64', T=40),
    S(0, 2, 3, 2, 'small', small='f64', large='f64', T=40),
    S(17, 260, 4, 2, 'small', minpts=1, rb=None, cb=None, large='f64', ratios=True, T=40),
    S(64, 2, 6, 8, 'u16', minpts=3, small='bf16', ratios=True, T=30),
    S(60, 2, 9, 2, 'u8', minpts=1, small='f64', large='f64', ratios=True, T=50),
]


def strat(shard, nshards):
    return mcmcgen.config(shard, nshards, MENU)


@sub('C28', strategy=strat, quick=12, thorough=150, shards=8, x64=True,
     rule='MCMC trajectories in 64 bit mode, with 16, 32, 64 bit floats for large arrays and 32 or 64 bit floats for the others; layout, coherence and validity of all states, repeatability; non-trivial if grow and prune moves are accepted')
def trajectory(case):
    from harness import sut
    state = mcmcgen.start_state(case)
    s = case['shape']
    small, large = sut.dtype_of(s['small']), sut.dtype_of(s['large'])
    for k in ('leaf_trees', 'y'):
        require(state[k].dtype == small, '%s has type %s', k, state[k].dtype)
    for k in ('resid', 'sigma2', 'p_nonterminal', 'p_propose_grow', 'sigma2_alpha', 'sigma2_beta'):
        require(state[k].dtype == large, '%s has type %s', k, state[k].dtype)
    key = sut.key_of(case['key'], 1)
    new = sut.mcmcstep.step(state, key)
    require(c15.layout(new) == c15.layout(state), 'layout of the state changed: %s', [x for x in zip(c15.layout(state)[0], c15.layout(new)[0]) if x[0] != x[1]][:3])
    diff = sut.same_tree(sut.npz(dict(new, opt=0)), sut.npz(dict(sut.mcmcstep.step(state, key), opt=0)))
    require(diff is None, 'a repeated step differs in %s', diff)
    # the state can be iterated, the residuals are accurate to the large type
    init, states = mcmcgen.trajectory(case, state)
    max_split = mcmcgen.inputs(case)['max_split']
    for t, x in enumerate(states):
        c08.check_state(x, t, max_split)
    return c07.trajectory(case)


def strat_splits(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from([list(s) for s in c03.SHAPES[shard::nshards]]), dtype=st.sampled_from(['float64', 'int64', 'float32', 'int16', 'uint8', 'uint32', 'uint64']),
        kind=st.sampled_from(['distinct', 'few', 'mixed', 'extreme', 'clumped', 'constant', 'close', 'large', 'tiny']),
        seed=st.integers(0, 2 ** 32 - 1)))


@sub('C28', strategy=strat_splits, quick=30, thorough=300, shards=4, x64=True,
     rule='quantile cutpoints in 64 bit mode, including 64 bit predictors; non-trivial if some predictor has more gaps than allowed cutpoints or at least 2 cutpoints')
def quantiles(case):
    return c03.cutpoints(case)


def strat_bins(shard, nshards):
    from hypothesis import strategies as st
    dtypes = [['float64', 'float64'], ['int64', 'int64'], ['float32', 'float64'], ['float64', 'float32'], ['int64', 'float64'], ['uint8', 'uint8'], ['float32', 'float32']]
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from([list(s) for s in c05.SHAPES[shard::nshards] if s[2] < 60000]), dtypes=st.sampled_from(dtypes),
        method=st.sampled_from(c05.METHODS), fill=st.sampled_from(['none', 'some', 'all', 'some']), dups=st.booleans(), seed=st.integers(0, 2 ** 32 - 1)))


@sub('C28', strategy=strat_bins, quick=30, thorough=300, shards=4, x64=True,
     rule='binning in 64 bit mode; non-trivial if at least 3 different bins are used')
def bins(case):
    return c05.bins(case)


def strat_grid(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        p=st.sampled_from([1, 3]), n=st.sampled_from([1, 2, 20]), bins=st.sampled_from([2, 3, 100, 256, 257, 1]),
        offset=st.sampled_from([0., 1e3, 1e8, -3e12]), scale=st.sampled_from([1., 1e-5, 1e100]), seed=st.integers(0, 2 ** 32 - 1)))


@sub('C28', strategy=strat_grid, quick=60, thorough=600, shards=1, x64=True,
     rule='uniform grids for float64 predictors, compared with their definition with double precision; non-trivial if there are at least two cutpoints')
def grid(case):
    from harness import sut
    rng = ref.rng_of(case['seed'])
    X = (case['offset'] + rng.standard_normal((case['p'], case['n']))) * case['scale']
    splits, max_split = sut.prepcovars.uniform_splits_from_matrix(sut.jnp.asarray(X), case['bins'])
    require(splits.dtype == np.float64, 'type of splits is %s', splits.dtype)
    lo, hi = X.min(1)[:, None], X.max(1)[:, None]
    k = np.arange(1, case['bins'])
    want = lo + (hi - lo) * k / case['bins']
    require(splits.shape == want.shape, 'shape %s', splits.shape)
    tol = 2. ** -49 * np.maximum(np.abs(lo), np.abs(hi))
    require(np.all(np.abs(np.asarray(splits) - want) <= tol), 'cutpoints differ from the grid by up to %s', np.max(np.abs(splits - want), initial=0))
    require(np.all(np.asarray(max_split) == case['bins'] - 1), 'max_split is %s', max_split)
    return dict(nontrivial=case['bins'] > 2 and case['n'] > 1)


RMENU = [
    reggen.shape(30, 2, 9, ntree=4, d=4),
    reggen.shape(25, 3, 12, ntree=3, quants=True, numcut=255),
    reggen.shape(60, 4, 10, ntree=8, d=6, numcut=255, keep=2),
    reggen.shape(20, 30, 5, ntree=4, d=3, numcut=7),
]


def strat_reg(shard, nshards):
    from hypothesis import strategies as st
    return reggen.config(shard, nshards, RMENU, dict(
        xkind=st.sampled_from(['normal', 'grid', 'int', 'fine']), wide=st.booleans(), large=st.sampled_from([None, 'f64', 'both'])))


@sub('C28', strategy=strat_reg, quick=8, thorough=80, shards=4, x64=True,
     rule='regressions in 64 bit mode, with 32 or 64 bit data, also with predictors that differ by less than the precision of 32 bit floats; predictions compared with a walk of the trees on raw predictors, settings with their definition; non-trivial if some tree is split')
def regression(case):
    from harness import sut
    fine = case['xkind'] == 'fine'
    X, y, T = reggen.data(dict(case, xkind='normal') if fine else case)
    if case['wide'] or fine:
        X, T = [A.astype(np.int64 if A.dtype.kind == 'i' else np.float64) for A in (X, T)]
        y = y.astype(np.float64)
    if fine:
        # distinguished only with 64 bits
        X, T = 1 + X * 1e-10, 1 + T * 1e-10
    initkw = {None: {}, 'f64': dict(large_float=sut.jnp.float64), 'both': dict(small_float=sut.jnp.float64, large_float=sut.jnp.float64)}[case['large']]
    b = reggen.fit(case, X, y, T, initkw=initkw)
    s = case['shape']
    fit, pred = np.asarray(b.yhat_train), np.asarray(b.predict(T))
    require(np.array_equal(fit, np.asarray(b.predict(X))), 'predictions at training points differ from the training fit')
    require(np.array_equal(pred, np.asarray(b.yhat_test)), 'yhat_test differs from later predictions')
    require(np.all(np.isfinite(fit)) and np.all(np.isfinite(np.asarray(b.sigma))), 'non-finite results')
    trace = sut.main_trace(b)
    splits = np.asarray(sut.private(b, '_splits'))
    leaf, var, split = (np.asarray(trace[k]) for k in ('leaf_trees', 'var_trees', 'split_trees'))
    points = np.concatenate([X, T], axis=1)
    got = np.concatenate([fit, pred], axis=1)
    offset, scale = float(b.offset), float(b.scale)
    for i in range(s['ndpost']):
        want, mag = c06.raw_forest(points, splits, leaf[i], var[i], split[i])
        err = np.abs(got[i] - (offset + scale * want))
        tol = 1e-5 * (abs(offset) + scale * (mag + 1e-3))
        require(np.all(err <= tol), 'sample %d: prediction is %s instead of %s', i, got[i][err > tol][:1], (offset + scale * want)[err > tol][:1])
    if fine:
        Xb = np.asarray(sut.final_state(b)['X'])
        require(min(len(np.unique(r)) for r in Xb) > 3, 'predictors which differ in 64 bit precision have the same bins')
    # settings
    kw = reggen.settings(case, y)
    Y = y.astype(np.float64)
    rel = 1e-12 if case['wide'] or fine else 1e-5
    near(b.offset, kw.get('offset', Y.mean()), rel * np.max(np.abs(Y)), 'offset')
    near(b.scale, np.ptp(Y) / (2 * kw.get('k', 2)), rel * np.ptp(Y), 'scale')
    if 'lamda' in kw:
        near(b.lamda, kw['lamda'], 1e-6 * kw['lamda'], 'lamda')
    else:
        df, q = kw.get('sigdf', 3), kw.get('sigquant', 0.9)
        prob = special.gammaincc(df / 2, df * float(b.lamda) / 2 / float(b.sigest) ** 2)
        near(prob, q, 1e-3, 'prior probability of a variance below sigest ** 2')
    return dict(nontrivial=bool((split > 0).any()), labels=['64 bit data' if case['wide'] or fine else '32 bit data', f'floats {case["large"]}'] + ['fine'] * fine)


def near(a, b, tol, name):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    require(np.shape(a) == np.shape(b) and np.all(np.abs(a - b) <= tol), '%s is %s instead of %s', name, a, b)


def strat_unique(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        n=st.sampled_from([0, 1, 2, 7, 30, 256, 300]), size=st.sampled_from([0, 1, 2, 5, 29, 30, 31, 257]),
        dtype=st.sampled_from(['int64', 'float64', 'uint64', 'int32', 'float32']), kind=st.sampled_from(['few', 'many', 'extreme', 'equal', 'sorted']),
        fill=st.sampled_from(['max', 'zero', 'same', 'other']), seed=st.integers(0, 2 ** 32 - 1)))


@sub('C28', strategy=strat_unique, quick=60, thorough=600, shards=1, x64=True,
     rule='unique values of 64 bit arrays, compared with numpy; non-trivial if some value is repeated or the length is not the number of distinct values')
def unique(case):
    return c21.unique(case)


def strat_gamma(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(a=st.floats(0.1, 300), q=st.floats(0.01, 0.99), jit=st.booleans(), dtype=st.sampled_from(['float64', 'float32', 'int', 'int shape'])))


@sub('C28', strategy=strat_gamma, quick=60, thorough=600, shards=1, x64=True,
     rule='inverse incomplete gamma function in double precision; every case is non-trivial')
def gamma(case):
    from harness import sut
    f = sut.jaxext.scipy.special.gammainccinv
    g = sut.jaxext.scipy.stats.invgamma.ppf
    if case['jit']:
        f, g = sut.jax.jit(f), sut.jax.jit(g)
    dtype = case['dtype']
    if 'int' in dtype:
        a = np.array([int(case['a']) + 1])
        q = np.array([[0], [1]]) if dtype == 'int' else np.array([[case['q']], [0.5]])
        dtype = 'float64'
    else:
        a, q = np.array([case['a']], dtype), np.array([[case['q']], [0.5]], dtype)
    got, got2 = f(a, q), g(q, a)
    a, q = a.astype(np.float64), q.astype(np.float64)
    want = special.gammainccinv(a, q)
    rtol = 1e-8 if dtype == 'float64' else 1e-4
    require(got.dtype == dtype and got.shape == want.shape, 'type %s shape %s', got.dtype, got.shape)
    require(got2.dtype == dtype and got2.shape == want.shape, 'type %s shape %s', got2.dtype, got2.shape)
    tiny = 1e-30 if dtype == 'float32' else 1e-300
    require(np.allclose(np.asarray(got), want, rtol=rtol, atol=tiny), 'gammainccinv is %s instead of %s', got, want)
    ok = (want > tiny) & (want < np.inf)
    require(np.allclose(np.asarray(got2)[ok], 1 / want[ok], rtol=rtol), 'quantile is %s instead of %s', got2, 1 / want)
    return {}

"""C26: the initial MCMC state is the null model of the given configuration."""

import numpy as np

from harness import mcmcgen, ref
from harness.core import require, sub


def strat(shard, nshards):
    from hypothesis import strategies as st
    f = lambda *a: st.sampled_from(a)
    return st.fixed_dictionaries(dict(
        n=st.one_of(f(0, 1, 9, 10, 11, 99, 100, 101, 199, 200, 201, 599, 600, 1000), st.integers(0, 3000)), p=f(1, 2, 5, 255, 256, 257, 300), d=f(3, 1, 2, 5, 6, 7, 8, 9, 10), ntree=f(1, 2, 7, 50, 200, 256, 300),
        ms=f('bin', 'small', 'mid', 'zeros', 'u8', 'u16', 'u16max'), pnt=f('default', 'deep', 'flat', 'increasing', 'high'),
        minpts=f(None, None, 0, 1, 5, 50, 100, 300), small=f('f32', 'f32', 'f16', 'bf16'), rb=f('auto', None, 1, 2, 17, 64), cb=f('auto', None, 1, 3, 128),
        ratios=st.booleans(), alpha=f(1.5, 0.5, 10., 1e-3, 0.), near=f(None, None, -1, 0, 1), beta=f(1.5, 0.01, 100., 0., 'inf', 'nan', -1., 1e-9, 1e-25, 1e20), xdist=f('uniform', 'clumped'), ydist=f('normal', 'big', 'offset'),
        container=f('jax', 'numpy', 'list pnt'), seed=st.integers(0, 2 ** 32 - 1)))


@sub('C26', strategy=strat, quick=40, thorough=600, shards=8, rule='any configuration of the sampler, including noise priors without a finite positive mean; each documented field of the initial state compared with its definition; non-trivial if there is at least a datapoint')
def init(case):
    from harness import sut
    jnp = sut.jnp
    n, p, d, ntree = case['n'], case['p'], case['d'], case['ntree']
    if case['near'] is not None and case['minpts']: # near the threshold for splitting the root
        n = 2 * case['minpts'] + case['near']
    rng = ref.rng_of(case['seed'])
    max_split = mcmcgen.make_max_split(rng, case['ms'], p)
    X = mcmcgen.make_X(rng, case['xdist'], max_split, n)
    y = mcmcgen.make_y(rng, case['ydist'], X)
    pnt = mcmcgen.make_pnt(case['pnt'], d)
    beta = float(case['beta'])
    minpts = case['minpts']
    small = sut.dtype_of(case['small'])
    arr = np.asarray if case['container'] == 'numpy' else jnp.asarray
    kw = {}
    if case['small'] != 'f32':
        kw['small_float'] = small
    s = sut.mcmcstep.init(X=arr(X), y=arr(y), max_split=arr(max_split), num_trees=ntree, p_nonterminal=list(map(float, pnt)) if case['container'] == 'list pnt' and d > 1 else arr(pnt),
                          sigma2_alpha=case['alpha'], sigma2_beta=beta, min_points_per_leaf=minpts, resid_batch_size=case['rb'], count_batch_size=case['cb'],
                          save_ratios=case['ratios'], **kw)
    half = 2 ** (d - 1)
    ysmall = np.asarray(jnp.asarray(y).astype(small).astype(jnp.float32))
    f32 = jnp.float32
    want = dict(
        leaf_trees=((ntree, 2 * half), small, 0), var_trees=((ntree, half), sut.min_uint(p - 1), 0), split_trees=((ntree, half), max_split.dtype, 0),
        resid=((n,), f32, ysmall), sigma2=((), f32, None), grow_prop_count=((), None, 0), grow_acc_count=((), None, 0), prune_prop_count=((), None, 0),
        prune_acc_count=((), None, 0), p_nonterminal=((d,), f32, np.append(pnt, np.float32(0))), p_propose_grow=((half,), f32, None),
        sigma2_alpha=((), f32, np.float32(case['alpha'])), sigma2_beta=((), f32, np.float32(beta)), max_split=((p,), max_split.dtype, max_split),
        y=((n,), small, ysmall), X=((p, n), X.dtype, X), leaf_indices=((ntree, n), sut.min_uint(2 * half - 1), 1))
    for k, (shape, dtype, value) in want.items():
        require(k in s, 'field %s is missing', k)
        x = s[k]
        require(x.shape == shape, '%s has shape %s instead of %s', k, x.shape, shape)
        require(isinstance(x, sut.jax.Array), '%s is a %s', k, type(x))
        if dtype is None:
            require(jnp.issubdtype(x.dtype, jnp.integer), '%s has type %s', k, x.dtype)
        else:
            require(x.dtype == jnp.dtype(dtype), '%s has type %s instead of %s', k, x.dtype, jnp.dtype(dtype))
        if value is not None:
            a = np.asarray(x.astype(f32) if jnp.issubdtype(x.dtype, jnp.floating) else x)
            require(np.array_equal(a, np.broadcast_to(value, shape), equal_nan=a.dtype.kind == 'f'), '%s is %s', k, a.ravel()[:5])
    with np.errstate(all='ignore'):
        ratio = float(np.float64(beta) / case['alpha'])
    ratio = ratio if np.isfinite(ratio) and ratio > 0 else 1
    require(abs(float(s['sigma2']) - ratio) <= 1e-5 * ratio, 'sigma2 is %s instead of %s', s['sigma2'], ratio)
    full = np.append(pnt, np.float32(0))
    ppg = np.asarray(s['p_propose_grow'])
    for i in range(1, half):
        require(ppg[i] == full[ref.depth_of(i)], 'p_propose_grow[%d] is %s instead of %s', i, ppg[i], full[ref.depth_of(i)])
    require('min_points_per_leaf' in s and 'affluence_trees' in s, 'fields about the minimum number of points')
    if minpts is None:
        require(s['min_points_per_leaf'] is None and s['affluence_trees'] is None, 'min_points_per_leaf is %s', s['min_points_per_leaf'])
    else:
        require(int(s['min_points_per_leaf']) == minpts, 'min_points_per_leaf is %s', s['min_points_per_leaf'])
        aff = np.asarray(s['affluence_trees'])
        require(aff.shape == (ntree, half) and aff.dtype == bool, 'affluence_trees has shape %s type %s', aff.shape, aff.dtype)
        expect = np.zeros(half, bool)
        if half > 1:
            expect[1] = n >= 2 * minpts
            require(np.array_equal(aff, np.broadcast_to(expect, aff.shape)), 'affluence of the roots is %s with %d points and minimum %d', aff[:, 1], n, minpts)
    opt = s['opt']
    require(type(opt) is sut.jaxext.LeafDict, 'opt is a %s', type(opt))
    require(jnp.dtype(opt['small_float']) == jnp.dtype(small) and jnp.dtype(opt['large_float']) == jnp.float32, 'types in opt: %s', opt)
    require(opt['require_min_points'] == (minpts is not None), 'require_min_points is %s', opt['require_min_points'])
    for name, given in (('resid_batch_size', case['rb']), ('count_batch_size', case['cb'])):
        v = opt[name]
        if given == 'auto':
            require(v is None or isinstance(v, (int, np.integer)) and v >= 1, 'automatic %s is %s', name, v)
        else:
            require(v == given and type(v) is type(given), '%s is %s instead of %s', name, v, given)
    require(('ratios' in s) == case['ratios'], 'ratios')
    if case['ratios']:
        for k in ('log_trans_prior', 'log_likelihood'):
            require(s['ratios'][k].shape == (ntree,) and s['ratios'][k].dtype == jnp.float32, 'ratios %s', k)
    return dict(nontrivial=n > 0, labels=[f'd={d}', case['small'], f'rb={case["rb"]}', f'cb={case["cb"]}'])


def strat_auto(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        platform=st.sampled_from(['gpu', 'cpu']), n=st.one_of(st.integers(0, 40), st.integers(0, 20000), st.sampled_from([0, 1, 2, 3, 5, 6, 7, 8, 9, 63, 64, 65])),
        ntree=st.sampled_from([1, 20, 200]), d=st.sampled_from([1, 2, 6]), abstract=st.booleans()))


class Device:

    def __init__(self, platform):
        self.platform = platform
        self.device_kind = platform


@sub('C26', strategy=strat_auto, quick=60, thorough=1000, shards=2, rule='automatic batch sizes chosen with the default device replaced by a fake one, such that the choices for gpu are reached too, with 0 to 20000 datapoints; they must be positive integers or None, and the one used for residuals must leave at least a batch; non-trivial on gpu')
def auto_batch(case):
    from unittest import mock
    from harness import sut
    jnp = sut.jnp
    n = case['n']

    def make(y):
        return sut.mcmcstep.init(X=jnp.zeros((1, n), jnp.uint8), y=y, max_split=jnp.ones(1, jnp.uint8), num_trees=case['ntree'],
                                 p_nonterminal=jnp.full(case['d'] - 1, 0.5), sigma2_alpha=1., sigma2_beta=1.)
    with mock.patch.object(sut.jax, 'devices', lambda *a, **k: [Device(case['platform'])]):
        s = sut.jax.eval_shape(make, jnp.zeros(n)) if case['abstract'] else sut.jax.jit(make)(jnp.zeros(n))
    for name in ('resid_batch_size', 'count_batch_size'):
        v = s['opt'][name]
        require(v is None or type(v) is int and v >= 1, 'automatic %s is %r with %d datapoints on %s', name, v, n, case['platform'])
        require(v is None or v <= max(1, n), 'automatic %s is %r with %d datapoints on %s', name, v, n, case['platform'])
    return dict(nontrivial=case['platform'] == 'gpu', labels=[case['platform'], f'resid {s["opt"]["resid_batch_size"]}', f'count {s["opt"]["count_batch_size"]}'])

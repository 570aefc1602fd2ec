"""C13: leaf values and noise variance come from their exact conditionals."""

import functools

import numpy as np

from harness import mcmcgen, ref, stat
from harness.core import require, sub

shape = mcmcgen.shape

MENU = [dict(s, T=150 if s['ntree'] < 30 else 10) for s in mcmcgen.MENU if s['small'] == 'f32' and s['n'] < 400] + [
    shape(50, 2, 3, 1, 'small', minpts=1, T=300),
    shape(20, 2, 4, 3, 'mid', T=300),
    shape(200, 2, 5, 2, 'mid', minpts=20, T=200),
    shape(3, 1, 3, 2, 'small', T=300),
]


def strat(shard, nshards):
    return mcmcgen.config(shard, nshards, MENU)


def leaf_z(init, states):
    """Standardized leaf values, grouped by what happened to the tree."""
    zs = {'leaves of unchanged trees': [], 'grown leaves': [], 'pruned leaf': [], 'other leaves of changed trees': [], 'empty leaves': []}
    allz, first = [], []
    ntree = len(init['var_trees'])
    X, y = init['X'], np.asarray(init['y'], np.float64)

    def evals(s):
        out = []
        for j in range(ntree):
            idx = ref.traverse(X, s['var_trees'][j], s['split_trees'][j])
            out.append((idx, np.asarray(s['leaf_trees'][j], np.float64)[idx]))
        return out

    old = evals(init)
    pre = init
    us = []
    from scipy import stats
    for s in states:
        new = evals(s)
        sigma2 = float(pre['sigma2'])
        fit = sum(v for _, v in old) if ntree else 0
        resid = y - fit
        zstep = []
        for j in range(ntree):
            resid = resid + old[j][1]
            idx = new[j][0]
            a, b = set(ref.walk(pre['split_trees'][j])[0]), set(ref.walk(s['split_trees'][j])[0])
            size = s['leaf_trees'].shape[1]
            c = np.bincount(idx, minlength=size)
            r = np.bincount(idx, weights=resid, minlength=size)
            leaf = np.asarray(s['leaf_trees'][j], np.float64)
            for i in ref.walk(s['split_trees'][j])[1]:
                prec = c[i] / sigma2 + ntree
                z = (leaf[i] - r[i] / sigma2 / prec) * np.sqrt(prec)
                if c[i] == 0:
                    zs['empty leaves'].append(z)
                if a == b:
                    zs['leaves of unchanged trees'].append(z)
                elif i >> 1 in b - a:
                    zs['grown leaves'].append(z)
                elif i in a - b:
                    zs['pruned leaf'].append(z)
                else:
                    zs['other leaves of changed trees'].append(z)
                zstep.append(z)
            resid = resid - new[j][1]
        allz += zstep
        first.append(zstep[0])
        # noise variance
        alpha = float(init['sigma2_alpha']) + len(y) / 2
        beta = float(init['sigma2_beta']) + (resid * resid).sum() / 2
        us.append(stats.gamma.cdf(beta / float(s['sigma2']), alpha))
        old, pre = new, s
    return zs, allz, first, us


def tests(case, i):
    from scipy import stats
    init, states = mcmcgen.trajectory(dict(case, key=(case['key'] + i) % 2 ** 32))
    zs, allz, first, us = leaf_z(init, states)
    p = {}
    for group, z in list(zs.items()) + [('all leaves', allz), ('first leaf of each step', first)]:
        for k, v in stat.normal_tests(z).items():
            p[f'{group}: {k}'] = v
    # consecutive leaves, also across trees
    for k, v in stat.uniform_tests(us).items():
        p[f'noise variance: {k}'] = v
    w = stats.norm.ppf(np.clip(us, 1e-15, 1 - 1e-15))
    p['correlation of noise variance and first leaf at the same step'] = stat.corr_test(w, first)
    p['correlation of noise variance and first leaf at the next step'] = stat.corr_test(w[:-1], first[1:])
    counts = {k: len(v) for k, v in zs.items()}
    return p, counts


@sub('C13', strategy=strat, quick=14, thorough=300, shards=8, shrink=False,
     rule='an MCMC trajectory of 10-300 steps; all the leaf values and noise variances are standardized with the conditional distribution recomputed from consecutive states, and tested for normality/uniformity, by kind of leaf, and for independence; a suspect result must be confirmed on two other keys; non-trivial if there are accepted grow and prune moves')
def trajectory(case):
    keep = {}

    def run(i):
        p, c = tests(case, i)
        if i == 0:
            keep.update(c)
        return p

    bad = stat.confirm(run)
    require(not bad, 'draws do not follow their conditional distribution, p-values: %s', bad)
    return dict(nontrivial=keep['grown leaves'] > 0 and keep['pruned leaf'] > 0,
                labels=[k for k, v in keep.items() if v], note=f'{keep}')


# ------------------------------------------------------------ noise variance

SIGMA_MENU = [0, 1, 2, 7, 100, 1000]


def strat_sigma(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        n=st.sampled_from(SIGMA_MENU[shard::nshards]),
        alpha=st.sampled_from([0.5, 1.5, 3.25, 20.]),
        beta=st.sampled_from([1e-3, 0.3, 10.]),
        scale=st.sampled_from([0.01, 1., 30.]),
        ntree=st.sampled_from([1, 3]),
        seed=st.integers(0, 2 ** 32 - 1),
    ))


@functools.cache
def _sigma():
    from harness import sut
    return sut.jax.jit(sut.jax.vmap(lambda state, key: sut.mcmcstep.sample_sigma(state, key)['sigma2'], in_axes=(None, 0)))


@sub('C13', strategy=strat_sigma, quick=25, thorough=300, shards=3, shrink=False, opt=2,
     rule='4000 noise variance draws for one generated state (residuals, prior); probability integral transform of the draws tested for uniformity; all non-trivial')
def sigma(case):
    from harness import sut
    from scipy import stats
    rng = ref.rng_of(case['seed'])
    n = case['n']
    resid = (case['scale'] * rng.standard_normal(n)).astype(np.float32)
    state = sut.mcmcstep.init(
        X=sut.jnp.zeros((1, n), sut.jnp.uint8), y=sut.jnp.asarray(resid), max_split=sut.jnp.ones(1, sut.jnp.uint8),
        num_trees=case['ntree'], p_nonterminal=np.full(2, 0.5, np.float32), sigma2_alpha=case['alpha'], sigma2_beta=case['beta'])
    alpha = case['alpha'] + n / 2
    beta = case['beta'] + (resid.astype(float) ** 2).sum() / 2

    def run(i):
        s2 = np.asarray(_sigma()(state, sut.random.split(sut.key_of(case['seed'], i), 4000)), np.float64)
        return stat.uniform_tests(stats.gamma.cdf(beta / s2, alpha))

    bad = stat.confirm(run)
    require(not bad, 'noise variance draws do not follow the inverse gamma posterior, p-values: %s', bad)
    return dict(labels=[f'n={n}'])

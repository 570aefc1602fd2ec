"""C09: no leaf has less than the minimum number of datapoints."""

import functools

import numpy as np

from harness import mcmcgen, ref
from harness.core import require, sub

MENU = [s for s in mcmcgen.MENU if s['minpts'] is not None] + [
    mcmcgen.shape(11, 2, 4, 3, 'mid', minpts=5, T=100),
    mcmcgen.shape(10, 1, 4, 3, 'small', minpts=5, T=100),
    mcmcgen.shape(30, 3, 6, 3, 'mid', minpts=4, cb=4, T=100),
    mcmcgen.shape(300, 2, 7, 2, 'mid', minpts=10, cb=64, rb=32, T=100),
    mcmcgen.shape(40, 2, 6, 2, 'u8', minpts=1, small='bf16', T=100),
    mcmcgen.shape(600, 3, 4, 2, 'u8', minpts=128, T=80),
    mcmcgen.shape(700, 2, 4, 2, 'mid', minpts=300, T=80),
]


def strat(shard, nshards):
    return mcmcgen.config(shard, nshards, MENU)


@functools.cache
def _proposer():
    from harness import sut
    return sut.jax.jit(sut.jax.vmap(sut.mcmcstep.sample_moves, in_axes=(None, 0)))


@sub('C09', strategy=strat, quick=50, thorough=1000, shards=8,
     rule='an MCMC trajectory with a minimum number of points per leaf from 0 to 300 and datasets around multiples of it; at each step the points in each leaf are counted, and at the initial, middle and last state 64 proposals per tree are drawn and the leaves proposed for splitting counted; non-trivial if some tree was split or none could be')
def trajectory(case):
    from harness import sut
    minpts = case['shape']['minpts']
    n = case['shape']['n']
    state = mcmcgen.start_state(case)
    init, states = mcmcgen.trajectory(case, state)
    splits = tight = 0
    for t, s in enumerate(states):
        for j in range(len(s['split_trees'])):
            split = s['split_trees'][j]
            if len(split) < 2 or not split[1]:
                continue
            splits += 1
            require(n >= 2 * minpts, 'step %d tree %d is split with %d datapoints and minimum %d', t, j, n, minpts)
            idx = ref.traverse(s['X'], s['var_trees'][j], split)
            _, leaves = ref.walk(split)
            c = np.bincount(idx, minlength=2 * len(split))
            low = [i for i in leaves if c[i] < minpts]
            require(not low, 'step %d tree %d: leaf %s with %s points, minimum is %d', t, j, low, [int(c[i]) for i in low], minpts)
            tight += any(c[i] == minpts for i in leaves)
    # proposals from the last state and from one in the middle
    proposed = 0
    # if all the leaves have null prior probability of being split, there is no
    # proper proposal; it's never accepted
    available = hasattr(sut.mcmcstep, 'sample_moves') and np.all(init['p_nonterminal'][:-1] > 0)
    for t in (-1, len(states) // 2, len(states) - 1) if available else ():
        full = dict(state)
        now = states[t] if t >= 0 else init
        for k in ('var_trees', 'split_trees', 'affluence_trees', 'leaf_trees', 'resid', 'leaf_indices', 'sigma2'):
            full[k] = sut.jnp.asarray(now[k]).astype(state[k].dtype)
        moves = sut.npz(_proposer()(full, sut.random.split(sut.key_of(case['key'], 1), 64)))
        for j in range(len(now['split_trees'])):
            split = now['split_trees'][j]
            idx = ref.traverse(now['X'], now['var_trees'][j], split)
            c = np.bincount(idx, minlength=2 * len(split))
            sel = moves['grow'][:, j] & moves['allowed'][:, j]
            for i in np.unique(moves['node'][sel, j]):
                proposed += 1
                require(i < len(split) and c[i] >= 2 * minpts, 'after step %d tree %d: proposed to split node %d with %d points, minimum is %d', t, j, i, c[i] if i < len(c) else -1, minpts)
    labels = [f'minpts={minpts}'] + ['proposals not available'] * (not available)
    if tight:
        labels.append('leaf with exactly the minimum')
    if n < 2 * minpts:
        labels.append('can not split')
    return dict(nontrivial=splits > 0 or n < 2 * minpts, labels=labels)


def strat_gbart(shard, nshards):
    from hypothesis import strategies as st
    menu = [dict(n=10, minpts=None), dict(n=9, minpts=None), dict(n=30, minpts=None), dict(n=30, minpts=9)]
    return st.fixed_dictionaries(dict(shape=st.sampled_from(menu[shard::nshards]), seed=st.integers(0, 2 ** 32 - 1), usequants=st.booleans()))


@sub('C09', strategy=strat_gbart, quick=5, thorough=60, shards=4,
     rule='a regression with default or overridden minimum; non-trivial if trees are split or the data is not enough')
def regression(case):
    from harness import sut
    s = case['shape']
    rng = ref.rng_of(case['seed'])
    n = s['n']
    # the first predictor separates 5 points from the others, the second is noise
    x = np.stack([np.arange(n) >= 5, rng.standard_normal(n)]).astype(np.float32)
    x[0] = x[0] * 2 - 1
    perm = rng.permutation(n)
    x[0] = x[0][perm]
    y = (10 * x[0] + 0.1 * rng.standard_normal(n)).astype(np.float32)
    kw = {} if s['minpts'] is None else dict(initkw=dict(min_points_per_leaf=s['minpts']))
    minpts = 5 if s['minpts'] is None else s['minpts']
    b = sut.gbart(sut.jnp.asarray(x), sut.jnp.asarray(y), ntree=4, nskip=50, ndpost=50, maxdepth=4, numcut=20,
                  usequants=case['usequants'], sigest=0.3, seed=case['seed'], **kw)
    trace = sut.npz(sut.main_trace(b))
    X = np.asarray(sut.final_state(b)['X'])
    splits = 0
    for t in range(50):
        for j in range(4):
            split = trace['split_trees'][t, j]
            if split[1]:
                splits += 1
                idx = ref.traverse(X, trace['var_trees'][t, j], split)
                _, leaves = ref.walk(split)
                c = np.bincount(idx, minlength=2 * len(split))
                require(min(c[i] for i in leaves) >= minpts, 'sample %d tree %d: leaf with %d points, minimum is %d', t, j, min(c[i] for i in leaves), minpts)
    if n == 9:
        require(splits == 0, 'split with 9 points')
    if n == 10:
        # posterior probability of no split is negligible (the noise scale is
        # 30 times smaller than the jump)
        require(splits > 0, 'no tree was ever split with 10 points, although a leaf may have 5 points')
    return dict(nontrivial=splits > 0 or n == 9, labels=[f'n={n}'])

"""C08: every sampled tree uses only valid decision rules."""

import functools

import numpy as np

from harness import mcmcgen, ref
from harness.core import require, sub


def check_state(s, t, max_split):
    for j in range(len(s['var_trees'])):
        bad = ref.tree_problems(s['var_trees'][j], s['split_trees'][j], max_split)
        require(not bad, 'step %d tree %d: %s', t, j, '; '.join(bad[:3]))
    require(s['var_trees'].shape == s['split_trees'].shape, 'shapes of trees differ')
    require(s['leaf_trees'].shape[1] == 2 * s['split_trees'].shape[1], 'shape of leaves')
    require(np.all(np.isfinite(s['leaf_trees'])), 'step %d: non-finite leaf values', t)


@sub('C08', strategy=mcmcgen.config, quick=70, thorough=1500, shards=8,
     rule='an MCMC trajectory from a generated configuration, including predictors with 0, 1, 255, 256, 65535 cutpoints and more than 256 predictors; each tree of each state is walked from the root and each rule compared with the range left by its ancestors; non-trivial if a tree with two nested rules was sampled')
def trajectory(case):
    _, states = mcmcgen.trajectory(case)
    max_split = mcmcgen.inputs(case)['max_split']
    nested = reuse = exhausted = 0
    for t, s in enumerate(states):
        check_state(s, t, max_split)
        for j in range(min(4, len(s['split_trees']))):
            split, var = s['split_trees'][j], s['var_trees'][j]
            inner, leaves = ref.walk(split)
            nested += any(i > 1 for i in inner)
            reuse += any(var[i] == var[i >> 1] for i in inner if i > 1)
            if t % 10 == 0:
                exhausted += any(not ref.avail_all(var, split, max_split, i) for i in leaves if i < len(split))
    labels = []
    if reuse:
        labels.append('predictor reused below itself')
    if exhausted:
        labels.append('leaf without available rules')
    if np.any(max_split == 0):
        labels.append('predictor without cutpoints')
    return dict(nontrivial=nested > 0, labels=labels)


GBART = [
    dict(n=30, p=3, ntree=5, numcut=4, maxdepth=4, usequants=True),
    dict(n=40, p=2, ntree=4, numcut=255, maxdepth=6, usequants=False),
    dict(n=25, p=4, ntree=6, numcut=1, maxdepth=6, usequants=True),
    dict(n=60, p=3, ntree=3, numcut=300, maxdepth=3, usequants=False),
]


def strat_gbart(shard, nshards):
    from hypothesis import strategies as st
    mine = GBART[shard::nshards]
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from(mine), seed=st.integers(0, 2 ** 32 - 1), xkind=st.sampled_from(['normal', 'integer', 'binary', 'constant', 'ties'])))


@sub('C08', strategy=strat_gbart, quick=6, thorough=120, shards=4,
     rule='a regression with generated data (including binary, constant and tied predictors); all the saved trees are checked against the ranges of the cutpoints in use; non-trivial if any tree was split')
def regression(case):
    from harness import sut
    s = case['shape']
    rng = ref.rng_of(case['seed'])
    n, p = s['n'], s['p']
    x = rng.standard_normal((p, n)).astype(np.float32)
    if case['xkind'] == 'integer':
        x = rng.integers(-3, 4, (p, n)).astype(np.float32)
    elif case['xkind'] == 'binary':
        x = rng.integers(0, 2, (p, n)).astype(np.float32)
    elif case['xkind'] == 'constant':
        x[0] = 1.5
    elif case['xkind'] == 'ties':
        x[-1] = np.round(x[-1])
    y = x[-1] + 0.3 * rng.standard_normal(n).astype(np.float32)
    b = sut.gbart(sut.jnp.asarray(x), sut.jnp.asarray(y), ntree=s['ntree'], numcut=s['numcut'], maxdepth=s['maxdepth'],
                  usequants=s['usequants'], nskip=20, ndpost=40, seed=case['seed'] % 1000, sigest=1.,
                  initkw=dict(min_points_per_leaf=1))
    trace = sut.npz(sut.main_trace(b))
    max_split = np.asarray(sut.final_state(b)['max_split'])
    splits = 0
    # the cutpoints effectively available for each predictor
    nval = [len(np.unique(r)) for r in x]
    if s['usequants']:
        for j in range(p):
            require(max_split[j] == min(nval[j] - 1, min(s['numcut'] + 1, n) - 1), 'predictor %d has %d values but max_split=%d', j, nval[j], max_split[j])
    for t in range(40):
        st = {k: trace[k][t] for k in ('leaf_trees', 'var_trees', 'split_trees')}
        check_state(st, t, max_split)
        splits += int(np.count_nonzero(st['split_trees'][:, 1:2]))
    return dict(nontrivial=splits > 0, labels=[case['xkind']])


ONE = [mcmcgen.shape(n, p, d, m, ms, minpts=mp) for n, p, d, m, ms, mp in [
    (0, 1, 3, 8, 'u8', None), (12, 2, 4, 8, 'u8', None), (20, 1, 4, 6, 'u16max', None), (10, 3, 5, 4, 'bin', None),
    (0, 2, 4, 8, 'zeros', None), (30, 2, 5, 5, 'one', 1), (15, 4, 4, 6, 'mixed', 0), (5, 3, 6, 3, 'small', None),
    (8, 257, 3, 6, 'bin', None), (0, 2, 5, 4, 'u16', None), (0, 3, 4, 6, 'u16max', None), (25, 2, 2, 10, 'u8', 1),
    (0, 1, 8, 2, 'u8', None), (14, 1, 5, 5, 'one', None), (6, 256, 4, 4, 'zeros', None), (0, 2, 9, 2, 'mid', None),
]]


def strat_one(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from(ONE[shard::nshards]), pnt=st.just('deep'), xdist=st.sampled_from(['uniform', 'clumped']),
        ydist=st.just('normal'), sig=st.just('high'), p_split=st.sampled_from([0.4, 0.6, 0.8, 1.]),
        seed=st.integers(0, 2 ** 32 - 1), key=st.integers(0, 2 ** 32 - 1)))


@functools.cache
def _one():
    from harness import sut

    def run(state, key):
        post = sut.mcmcstep.sample_trees(state, key)
        return {k: post[k] for k in ('var_trees', 'split_trees', 'leaf_trees')}
    return sut.jax.jit(sut.jax.vmap(run, in_axes=(None, 0)))


@sub('C08', strategy=strat_one, quick=30, thorough=500, shards=8,
     rule='a valid generated forest, often with cutpoints at the ends of their ranges, and 48 alternative next states; non-trivial if some tree grew and some leaf had a predictor without available cutpoints')
def one_step(case):
    from harness import sut
    state, info = mcmcgen.random_forest_state(case)
    post = sut.npz(_one()(state, sut.random.split(sut.key_of(case['key']), 48)))
    max_split = info['max_split']
    seen = {}
    grown = 0
    for k in range(48):
        for j in range(info['ntree']):
            v, s = post['var_trees'][k, j], post['split_trees'][k, j]
            h = (j, v.tobytes(), s.tobytes())
            if h in seen:
                continue
            seen[h] = 1
            if np.count_nonzero(s) > np.count_nonzero(info['split'][j]):
                grown += 1
            bad = ref.tree_problems(v, s, max_split)
            require(not bad, 'tree %d: %s', j, '; '.join(bad[:3]))
    require(np.all(np.isfinite(post['leaf_trees'])), 'non-finite leaf values')
    tight = 0
    for j in range(info['ntree']):
        v, s = info['var'][j], info['split'][j]
        for i in ref.walk(s)[1]:
            ok = ref.avail_all(v, s, max_split, i)
            if i < len(s) and len(ok) < np.count_nonzero(max_split):
                tight += 1
    return dict(nontrivial=grown > 0 and tight > 0, labels=['grown'] * (grown > 0) + ['tight'] * (tight > 0))

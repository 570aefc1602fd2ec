"""C02: tree shape queries agree with the actual tree."""

import functools

import numpy as np

from harness import ref
from harness.core import Skip, require, sub
from checks.c01 import grow


def func(module, name):
    from harness import sut
    f = getattr(getattr(sut, module), name, None)
    if f is None:
        raise Skip(f'no {module}.{name}')
    return f


def strat(shard, nshards):
    from hypothesis import strategies as st
    depths = [2, 3, 1, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17]
    return st.fixed_dictionaries(dict(
        d=st.sampled_from(depths[shard::nshards] + [3]), st=st.sampled_from(['uint8', 'uint16', 'uint32', 'int32']),
        ms=st.sampled_from([1, 3, 100, 255, 65535]), p_split=st.sampled_from([0.6, 0.8, 0.95, 1., 0.2]), chain=st.sampled_from([0, 0, 1, 2]),
        jit=st.booleans(), seed=st.integers(0, 2 ** 32 - 1)))


def make_tree(rng, case):
    d = case['d']
    ms = min(case['ms'], np.iinfo(case['st']).max)
    half = 2 ** (d - 1)
    if case['chain']:
        # a single path, to the left or random
        split = np.zeros(half, np.int64)
        i = 1
        while i < half and rng.random() < 0.95:
            split[i] = rng.integers(1, ms + 1)
            i = 2 * i + (0 if case['chain'] == 1 else int(rng.integers(2)))
        return np.zeros(half, np.int64), split
    return grow(rng, d, np.full(4, ms), case['p_split'])


@functools.cache
def _jit(name, **kw):
    from harness import sut
    f = getattr(sut.grove, name)
    return sut.jax.jit(functools.partial(f, **kw))


@sub('C02', strategy=strat, quick=60, thorough=1500, shards=6,
     rule='a generated tree of maximum depth 1 to 17 (random, complete, single path), masks of leaves and leaf parents, depths compared with a walk from the root; non-trivial if there are at least 2 decision nodes')
def masks(case):
    from harness import sut
    rng = ref.rng_of(case['seed'])
    _, split = make_tree(rng, case)
    half = len(split)
    arr = sut.jnp.asarray(split.astype(case['st']))
    inner, leaves = ref.walk(split)
    parents = ref.leaf_parents(split)
    get = _jit if case['jit'] else (lambda name, **kw: functools.partial(getattr(sut.grove, name), **kw))

    want = np.zeros(2 * half, bool)
    want[leaves] = True
    got = np.asarray(get('is_actual_leaf')(arr))
    require(got.dtype == bool and got.shape == (half,), 'is_actual_leaf: %s %s', got.dtype, got.shape)
    # index 0 is unused
    require(np.array_equal(got[1:], want[1:half]), 'is_actual_leaf: %s instead of %s', np.flatnonzero(got), np.flatnonzero(want[:half]))
    require(not got[0], 'is_actual_leaf marks the unused slot')
    got = np.asarray(get('is_actual_leaf', add_bottom_level=True)(arr))
    require(got.shape == (2 * half,), 'is_actual_leaf with bottom level: shape %s', got.shape)
    require(np.array_equal(got, want), 'is_actual_leaf with bottom level: %s instead of %s', np.flatnonzero(got), leaves)
    want = np.zeros(half, bool)
    want[parents] = True
    got = np.asarray(get('is_leaves_parent')(arr))
    require(got.dtype == bool and np.array_equal(got, want), 'is_leaves_parent: %s instead of %s', np.flatnonzero(got), parents)
    for size in (half, 2 * half):
        got = np.asarray(sut.grove.tree_depths(size))
        want = [0] + [ref.depth_of(i) for i in range(1, size)]
        require(got.tolist() == want, 'tree_depths(%d) = %s', size, got)
    d = case['d']
    tree = sut.grove.make_tree(d, arr.dtype)
    require(tree.shape == (2 ** d,) and tree.dtype == arr.dtype and not np.any(tree), 'make_tree(%d)', d)
    require(sut.grove.tree_depth(tree) == d and sut.grove.tree_depth(sut.jnp.broadcast_to(tree, (3, 2, 2 ** d))) == d, 'tree_depth')
    if case['chain'] or half < 64 or half > 2 ** 12:
        f = func('debug', 'tree_actual_depth')
        got = int(f(arr))
        require(got == max(map(ref.depth_of, leaves)), 'actual depth is %d instead of %d', got, max(map(ref.depth_of, leaves)))
    return dict(nontrivial=len(inner) >= 2, labels=[f'depth {d}'])


FOREST = [dict(d=3, m=4, T=2, n=10), dict(d=2, m=1, T=3, n=5), dict(d=5, m=7, T=3, n=40), dict(d=6, m=3, T=2, n=0), dict(d=4, m=300, T=1, n=20),
          dict(d=10, m=2, T=2, n=30), dict(d=11, m=1, T=1, n=300), dict(d=1, m=2, T=2, n=6), dict(d=4, m=2, T=2, n=300), dict(d=9, m=2, T=2, n=256), dict(d=3, m=260, T=2, n=3), dict(d=2, m=2, T=1, n=65536), dict(d=17, m=1, T=1, n=20)]


def strat_forest(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from(FOREST[shard::nshards]), st=st.sampled_from(['uint8', 'uint16']), ms=st.sampled_from([3, 1, 255]),
        p_split=st.sampled_from([0.6, 0.9, 1., 0.]), chain=st.sampled_from([0, 0, 0, 2]), ones=st.booleans(),
        seed=st.integers(0, 2 ** 32 - 1)))


@sub('C02', strategy=strat_forest, quick=30, thorough=500, shards=6,
     rule='a trace of generated forests and a dataset; distributions of depths and of points per leaf compared with counts over the walk of each tree; non-trivial if there are at least two different depths')
def summaries(case):
    from harness import sut
    jnp = sut.jnp
    s = case['shape']
    rng = ref.rng_of(case['seed'])
    d, m, T, n = s['d'], s['m'], s['T'], s['n']
    case = dict(case, d=d)
    half = 2 ** (d - 1)
    var = np.zeros((T, m, half), np.int64)
    split = np.zeros((T, m, half), np.int64)
    for t in range(T):
        for j in range(m):
            var[t, j], split[t, j] = make_tree(rng, case)
    p = 4
    X = np.ones((p, n), np.int64) * rng.integers(0, case['ms'] + 1) if case['ones'] else rng.integers(0, case['ms'] + 1, (p, n))
    wd = np.zeros((T, d), int)
    wp = np.zeros((T, n + 1), int)
    for t in range(T):
        for j in range(m):
            leaves = ref.walk(split[t, j])[1]
            wd[t, max(map(ref.depth_of, leaves))] += 1
            c = np.bincount(ref.traverse(X, var[t, j], split[t, j]), minlength=2 * half)
            for i in leaves:
                wp[t, c[i]] += 1
    aX = jnp.asarray(X.astype(np.uint8 if case['ms'] < 256 else np.uint16))
    av = jnp.asarray(var.astype(np.uint8))
    as_ = jnp.asarray(split.astype(case['st']))
    got = np.asarray(func('debug', 'forest_depth_distr')(as_[0]))
    require(np.array_equal(got, wd[0]), 'distribution of depths of a forest: %s instead of %s', got, wd[0])
    got = np.asarray(func('debug', 'trace_depth_distr')(as_))
    require(np.array_equal(got, wd), 'distribution of depths of a trace: %s instead of %s', got, wd)
    if m * T:
        leaves = ref.walk(split[0, 0])[1]
        c = np.bincount(ref.traverse(X, var[0, 0], split[0, 0]), minlength=2 * half)
        w1 = np.bincount([c[i] for i in leaves], minlength=n + 1)
        got = np.asarray(func('debug', 'points_per_leaf_distr')(av[0, 0], as_[0, 0], aX))
        require(np.array_equal(got, w1), 'points per leaf of a tree: %s instead of %s', got, w1)
    tr = dict(var_trees=av, split_trees=as_)
    got = np.asarray(func('debug', 'forest_points_per_leaf_distr')({k: v[0] for k, v in tr.items()}, aX))
    require(np.array_equal(got, wp[0]), 'points per leaf of a forest: %s instead of %s', got, wp[0])
    got = np.asarray(func('debug', 'trace_points_per_leaf_distr')(tr, aX))
    require(np.array_equal(got, wp), 'points per leaf of a trace: %s instead of %s', got, wp)
    return dict(nontrivial=bool((np.count_nonzero(wd, axis=1) > 1).any()), labels=['more than 255 equal leaves'] * bool((wp > 255).any()))

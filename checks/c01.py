"""C01: forest evaluation follows the decision rules."""

import functools

import numpy as np

from harness import ref
from harness.core import require, sub


def sh(m, d, p, n, xt='uint8', st='uint8', vt=None, lt='float32'):
    return dict(m=m, d=d, p=p, n=n, xt=xt, st=st, vt=vt, lt=lt)


MENU = [
    sh(1, 2, 1, 5), sh(1, 1, 1, 4), sh(2, 3, 2, 10), sh(3, 4, 3, 20), sh(1, 8, 2, 50), sh(2, 9, 3, 60), sh(256, 3, 2, 10), sh(257, 3, 2, 10),
    sh(4, 5, 256, 20, vt='uint8'), sh(4, 5, 257, 20), sh(2, 4, 300, 10, vt='uint32'), sh(3, 6, 4, 40, 'uint16', 'uint16'), sh(5, 6, 3, 33, 'uint32', 'uint32'),
    sh(2, 10, 2, 100), sh(1, 12, 3, 80, 'uint16', 'uint16'), sh(3, 4, 2, 0), sh(2, 5, 3, 30, 'int32', 'int32', 'int32'), sh(3, 6, 2, 40, 'uint8', 'uint8', None, 'float16'),
    sh(3, 5, 2, 40, 'uint8', 'uint8', None, 'bfloat16'), sh(300, 2, 1, 7), sh(2, 7, 5, 300), sh(1, 16, 2, 20, 'uint16', 'uint16'), sh(2, 17, 2, 10), sh(7, 6, 10, 1),
    sh(2, 3, 3, 15, 'uint16', 'uint8'), sh(2, 3, 3, 15, 'uint8', 'uint16'), sh(65, 6, 4, 64), sh(2, 5, 2, 70000), sh(2, 16, 4, 20), sh(1, 17, 5, 20, 'uint16', 'uint16'), sh(3, 9, 4, 30), sh(2, 8, 4, 30),
]


def make(case):
    s = case['shape']
    rng = ref.rng_of(case['seed'])
    m, d, p, n = s['m'], s['d'], s['p'], s['n']
    top = {'uint8': 255, 'uint16': 65535, 'uint32': 2 ** 31 - 1, 'int32': 2 ** 31 - 1}[s['st']]
    kind = case['splits']
    if kind == 'tiny':
        ms = rng.integers(1, 3, p)
    elif kind == 'small':
        ms = rng.integers(1, 12, p)
    elif kind == 'top':
        ms = np.full(p, top)
    else:
        ms = rng.choice([0, 1, 5, 200, top], p)
    half = 2 ** (d - 1)
    var = np.zeros((m, half), np.int64)
    split = np.zeros((m, half), np.int64)
    spine = rng.integers(0, ms + 1) if d > 6 else None
    for t in range(m):
        var[t], split[t] = grow(rng, d, ms, case['p_split'], spine)
        if case['garbage']:
            g = ref.garbage_var(rng, var[t], split[t], p)
            inner, _ = ref.walk(split[t])
            g[0] = rng.integers(p)
            var[t] = g
            mask = np.ones(half, bool)
            mask[inner] = False
            # decision boundaries hanging from leaves
            if case['garbage'] > 1:
                _, leaves = ref.walk(split[t])
                mask[[i for i in leaves if i < half]] = False
                split[t][mask] = rng.integers(0, min(top, 10) + 1, mask.sum())
    leaf = rng.integers(-30, 31, (m, 2 * half)).astype(float)
    if case.get('wide'):
        # exact with 16 bits, but not their sum
        leaf = rng.integers(-127, 128, (m, 2 * half)) * 2. ** rng.integers(0, 9, (m, 2 * half))
    xtop = {'uint8': 255, 'uint16': 65535, 'uint32': 2 ** 31 - 1, 'int32': 2 ** 31 - 1}[s['xt']]
    X = np.empty((p, n), np.int64)
    for j in range(p):
        X[j] = rng.integers(0, min(xtop, int(ms[j])) + 1, n)
    # put points on the boundaries and beyond the range
    if n:
        for t in range(min(m, 5)):
            for i in ref.walk(split[t])[0][:20]:
                X[var[t, i], rng.integers(n)] = min(xtop, split[t, i] - rng.integers(2))
        X[rng.integers(p), rng.integers(n)] = xtop
        if spine is not None:
            X[:, rng.integers(n)] = np.minimum(spine, xtop)
    return X, leaf, var, split


def grow(rng, d, ms, p_split, spine=None):
    """Random tree, valid or with rules which make some branches unreachable.
    `spine` is a point which reaches the bottom of the tree, if possible."""
    if spine is not None and rng.random() < 0.5:
        return ref.random_tree(rng, d, ms, min(p_split, 0.5) if d > 8 else p_split, spine=spine)
    if d > 10:
        p_split = min(p_split, 0.75)
    if rng.random() < 0.5:
        return ref.random_tree(rng, d, ms, p_split)
    half = 2 ** (d - 1)
    var = np.zeros(half, np.int64)
    split = np.zeros(half, np.int64)
    ok = np.flatnonzero(ms)
    stack = [1]
    while stack and len(ok):
        i = stack.pop()
        if i < half and rng.random() < p_split:
            var[i] = rng.choice(ok)
            split[i] = rng.integers(1, ms[var[i]] + 1)
            stack += [2 * i, 2 * i + 1]
    return var, split


def arrays(case, X, leaf, var, split):
    from harness import sut
    jnp = sut.jnp
    s = case['shape']
    vt = s['vt'] or np.dtype(sut.min_uint(s['p'] - 1)).name
    return (jnp.asarray(X.astype(s['xt'])), jnp.asarray(leaf).astype(s['lt']), jnp.asarray(var.astype(vt)), jnp.asarray(split.astype(s['st'])))


def strat(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from(MENU[shard::nshards]), splits=st.sampled_from(['small', 'tiny', 'top', 'mixed']),
        p_split=st.sampled_from([0.7, 0.9, 0.5, 1.]), garbage=st.sampled_from([0, 1, 2]),
        jit=st.booleans(), dtype=st.sampled_from([None, 'float32', 'float32']), wide=st.booleans(), seed=st.integers(0, 2 ** 32 - 1)))


@functools.cache
def _funcs(dtype):
    from harness import sut
    g = sut.grove
    f1 = lambda X, l, v, s: g.evaluate_forest(X, l, v, s, dtype)
    f2 = lambda X, l, v, s: g.evaluate_forest(X, l, v, s, sum_trees=False)
    f3 = g.traverse_forest
    return (sut.jax.jit(f1), sut.jax.jit(f2), sut.jax.jit(f3)), (f1, f2, f3)


@sub('C01', strategy=strat, quick=40, thorough=700, shards=8,
     rule='a generated forest (valid or with unreachable branches, with or without leftovers in unused slots, integer types from 8 to 32 bits) with integer leaf values, and points on and around the boundaries; leaf indices, values per tree and sums compared exactly with a walk from the root; non-trivial if points fall in at least 3 different leaves of a tree')
def evaluation(case):
    from harness import sut
    jnp = sut.jnp
    s = case['shape']
    if case['dtype'] is None and s['lt'] != 'float32':
        case = dict(case, wide=False)
    X, leaf, var, split = make(case)
    m, d, p, n = s['m'], s['d'], s['p'], s['n']
    args = arrays(case, X, leaf, var, split)
    dtype = case['dtype'] and jnp.dtype(case['dtype'])
    jit, eager = _funcs(dtype)
    use_jit = case['jit'] or m * n > 5000
    f1, f2, f3 = jit if use_jit else eager
    idx = np.stack([ref.traverse(X, var[t], split[t]) for t in range(m)])
    values = np.take_along_axis(leaf, idx, 1)
    got = np.asarray(f3(args[0], args[2], args[3]))
    require(got.shape == (m, n), 'traverse_forest: shape %s', got.shape)
    if not np.array_equal(got, idx):
        t, i = np.argwhere(got != idx)[0]
        require(False, 'tree %d point %s: in leaf %d, should be in %d', t, X[:, i][:10].tolist(), got[t, i], idx[t, i])
    got = f2(*args)
    require(got.dtype == args[1].dtype and got.shape == (m, n), 'values per tree: %s %s', got.dtype, got.shape)
    got = np.asarray(got.astype(jnp.float32))
    require(np.array_equal(got, values), 'wrong values of the trees')
    got = f1(*args)
    want = args[1].dtype if dtype is None else dtype
    require(got.dtype == want and got.shape == (n,), 'sum: %s %s', got.dtype, got.shape)
    got = np.asarray(got.astype(jnp.float32)).astype(float)
    total = values.sum(0)
    if want == jnp.float32:
        require(np.array_equal(got, total), 'wrong sum of trees')
    else:
        tol = 2. ** -7 if want == jnp.bfloat16 else 2. ** -10
        require(np.allclose(got, total, atol=tol * np.abs(values).sum(0).max(initial=0)), 'wrong sum of trees')
    # one tree, one point
    if n:
        i = int(ref.rng_of(case['seed'], 1).integers(n))
        one = int(sut.grove.traverse_tree(args[0][:, i], args[2][0], args[3][0]))
        require(one == idx[0, i], 'traverse_tree: leaf %d, should be %d', one, idx[0, i])
    return dict(nontrivial=max((len(np.unique(r)) for r in idx), default=0) >= 3,
                labels=['reaches the bottom'] * bool(np.any(idx >= 2 ** (d - 1))) + ['garbage'] * bool(case['garbage']) + [f'depth {d}', 'jit' if use_jit else 'eager'])


TRACE = [dict(sh(3, 4, 3, 20), T=5), dict(sh(1, 2, 1, 4), T=3), dict(sh(256, 3, 2, 9), T=2), dict(sh(257, 3, 2, 9), T=2),
         dict(sh(4, 6, 2, 31, 'uint16', 'uint16'), T=4), dict(sh(2, 9, 257, 12), T=3), dict(sh(3, 5, 3, 8, lt='float16'), T=3), dict(sh(20, 4, 2, 9, lt='bfloat16'), T=3), dict(sh(50, 3, 2, 9, lt='float16'), T=2), dict(sh(3, 4, 3, 0), T=2),
         dict(sh(7, 3, 2, 10), T=0), dict(sh(5, 5, 2, 100), T=11)]


def strat_trace(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from(TRACE[shard::nshards]), splits=st.sampled_from(['small', 'tiny', 'top', 'mixed']),
        p_split=st.sampled_from([0.7, 0.9, 0.5]), garbage=st.sampled_from([0, 1]), wide=st.booleans(),
        seed=st.integers(0, 2 ** 32 - 1)))


@sub('C01', strategy=strat_trace, quick=30, thorough=400, shards=4,
     rule='a trace of generated forests, of length 0 to 11, evaluated at generated points and compared exactly with the walk of each tree in order; non-trivial if different iterations give different predictions')
def trace(case):
    from harness import sut
    s = case['shape']
    X, *_ = make(case)
    forests = [make(dict(case, seed=(case['seed'] + 1 + t) % 2 ** 32))[1:] for t in range(s['T'])]
    if forests:
        items = [arrays(case, X, *f) for f in forests]
        tr = {k: sut.jnp.stack([it[i] for it in items]) for i, k in ((1, 'leaf_trees'), (2, 'var_trees'), (3, 'split_trees'))}
    else:
        a = arrays(case, *make(case))
        tr = {k: a[i][None][:0] for i, k in ((1, 'leaf_trees'), (2, 'var_trees'), (3, 'split_trees'))}
    # additional fields, as in actual traces
    tr['sigma2'] = sut.jnp.ones(s['T'])
    got = sut.mcmcloop.evaluate_trace(tr, sut.jnp.asarray(X.astype(s['xt'])))
    want = np.zeros((s['T'], s['n']))
    for t, (leaf, var, split) in enumerate(forests):
        for j in range(s['m']):
            want[t] += leaf[j][ref.traverse(X, var[j], split[j])]
    require(got.shape == want.shape, 'shape %s, should be %s', got.shape, want.shape)
    require(np.array_equal(np.asarray(got, float), want), 'wrong predictions of the trace')
    return dict(nontrivial=len(np.unique(want, axis=0)) > 1)


LARGE = [dict(m=140, n=1000000, d=2, T=1), dict(m=3, n=45000001, d=2, T=1)]


def strat_large(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(shape=st.sampled_from(LARGE[shard::nshards]), seed=st.integers(0, 2 ** 32 - 1)))


@sub('C01', strategy=strat_large, quick=1, thorough=4, shards=2, opt=2, shrink=False,
     rule='a trace on so many trees and points that predictions have to be computed in batches; all non-trivial')
def large(case):
    from harness import sut
    jnp = sut.jnp
    s = case['shape']
    rng = ref.rng_of(case['seed'])
    m, n = s['m'], s['n']
    split = rng.integers(1, 4, m)
    leaf = np.zeros((m, 4))
    leaf[:, 2:] = rng.integers(-30, 31, (m, 2))
    x = rng.integers(0, 4, n).astype(np.uint8)
    tr = dict(leaf_trees=jnp.asarray(leaf, jnp.float32)[None], var_trees=jnp.zeros((1, m, 2), jnp.uint8),
              split_trees=jnp.asarray(np.stack([0 * split, split], 1), jnp.uint8)[None])
    got = np.asarray(sut.mcmcloop.evaluate_trace(tr, jnp.asarray(x)[None]))
    table = np.array([sum(leaf[t, 3 if v >= split[t] else 2] for t in range(m)) for v in range(4)])
    require(got.shape == (1, n), 'shape %s', got.shape)
    require(np.array_equal(got[0], table[x]), 'wrong predictions of the trace on many points')
    return {}

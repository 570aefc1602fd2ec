"""C19: automatic batching does not change the result of a function."""

import warnings

import numpy as np

from harness import ref
from harness.core import require, sub

DTYPES = ['int32', 'float32', 'uint8', 'int16', 'bool', 'float16']
SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 16, 17, 24, 30, 36, 49, 60, 64, 97, 100, 121, 128, 210, 720, 0]


def strat(shard, nshards):
    from hypothesis import strategies as st
    dims = st.lists(st.sampled_from([1, 2, 3, 5, 0]), max_size=2)
    leaf = st.fixed_dictionaries(dict(dims=dims, axis=st.integers(0, 2), neg=st.booleans(), dtype=st.sampled_from(DTYPES), batched=st.sampled_from([True, True, True, False])))
    out = st.fixed_dictionaries(dict(dims=dims, axis=st.integers(0, 2), neg=st.booleans(), dtype=st.sampled_from(DTYPES)))
    arg = st.one_of(leaf, st.lists(leaf, min_size=1, max_size=2), st.dictionaries(st.sampled_from('abc'), leaf, min_size=1, max_size=2))
    return st.fixed_dictionaries(dict(
        size=st.sampled_from(SIZES),
        limit=st.sampled_from(['element', 'big', 'fraction', 'tiny', 'exact', 'small', 'fits']), frac=st.integers(1, 60),
        args=st.lists(arg, min_size=1, max_size=3),
        outs=st.one_of(out, st.lists(out, min_size=1, max_size=3), st.dictionaries(st.sampled_from('xyz'), out, min_size=1, max_size=2)),
        plain=st.booleans(), ret=st.booleans(), tuple_out=st.booleans(), seed=st.integers(0, 2 ** 32 - 1)))


def tmap(f, x):
    if isinstance(x, dict) and 'dims' not in x:
        return {k: tmap(f, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(tmap(f, v) for v in x)
    return f(x)


def leaves(x):
    if isinstance(x, dict) and 'dims' not in x:
        return [l for k in sorted(x) for l in leaves(x[k])]
    if isinstance(x, (list, tuple)):
        return [l for v in x for l in leaves(v)]
    return [x]


@sub('C19', strategy=strat, quick=70, thorough=1500, shards=8, rule='a function with 1-3 possibly nested arguments, batched along any axis or unbatched, and nested outputs, with a size limit around the actual size; result compared with the unbatched function, number of batches with the limit; non-trivial if there are at least 2 batches')
def batching(case):
    from harness import sut
    jnp = sut.jnp
    rng = ref.rng_of(case['seed'])
    size = case['size']

    args_spec = list(case['args'])
    if not any(l['batched'] for l in leaves(args_spec)):
        leaves(args_spec)[0]['batched'] = True

    def norm(l):
        l = dict(l, axis=min(l['axis'], len(l['dims'])))
        if case['plain']:
            l['axis'] = 0
            if 'batched' in l:
                l['batched'] = True
        return l
    args_spec = tmap(norm, args_spec)
    out_spec = tmap(norm, case['outs'])
    if case['tuple_out'] and isinstance(out_spec, list):
        out_spec = tuple(out_spec)

    def axis_of(l):
        ax = l['axis']
        return ax - len(l['dims']) - 1 if l['neg'] and not case['plain'] else ax

    def make(l):
        shape = list(l['dims'])
        if l['batched']:
            shape.insert(l['axis'], size)
        return jnp.asarray(rng.integers(0, 50, shape)).astype(l['dtype'])
    args = tuple(tmap(make, a) for a in args_spec)
    in_axes = tuple(tmap(lambda l: axis_of(l) if l['batched'] else None, a) for a in args_spec)
    out_axes = tmap(axis_of, out_spec)

    spec_leaves = [l for a in args_spec for l in leaves(a)]

    def func(*args):
        vals = [x for a in args for x in leaves(a)]
        total = None
        const = jnp.int32(0)
        for l, x in zip(spec_leaves, vals):
            x = x.astype(jnp.int32)
            if l['batched']:
                x = jnp.moveaxis(x, l['axis'], 0)
                w = jnp.arange(1, 1 + int(np.prod(x.shape[1:])), dtype=jnp.int32)
                row = jnp.sum(x.reshape(x.shape[0], w.size) * w, axis=1, dtype=jnp.int32)
                total = row if total is None else 3 * total + row
            else:
                const = const + 7 * jnp.sum(x, dtype=jnp.int32)
        total = total + const

        def out(o):
            d = o['dims']
            w = jnp.arange(1, 1 + int(np.prod(d)), dtype=jnp.int32).reshape(d)
            y = total.reshape(total.shape + (1,) * len(d)) * w + o['axis']
            if o['dtype'] in ('float16', 'bool'):
                y = y % 2 if o['dtype'] == 'bool' else y % 1000
            return jnp.moveaxis(y, 0, o['axis']).astype(o['dtype'])
        return tmap(out, out_spec)

    want = func(*args)
    per = 0
    for l in spec_leaves:
        if l['batched']:
            per += int(np.prod(l['dims'])) * np.dtype(l['dtype']).itemsize
    for o in leaves(out_spec):
        per += int(np.prod(o['dims'])) * np.dtype(o['dtype']).itemsize
    total = per * size
    limit = {
        'element': per, 'big': 2 ** 29, 'fraction': total * case['frac'] // 60, 'tiny': case['frac'], 'exact': total,
        'small': per - 1, 'fits': per * case['frac'],
    }[case['limit']]
    limit = max(1, limit)

    axes = {} if case['plain'] else dict(in_axes=in_axes, out_axes=out_axes)
    f = sut.jaxext.autobatch(func, limit, return_nbatches=True, **axes)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        got, nbatches = f(*args)
    warned = any('max_io_nbytes' in str(w.message) for w in log)
    nbatches = int(nbatches)
    if not case['ret']:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = sut.jaxext.autobatch(func, limit, **axes)(*args)

    require(sut.jax.tree_util.tree_structure(got) == sut.jax.tree_util.tree_structure(want), 'structure of the output')
    for o, a, b in zip(leaves(out_spec), leaves(want), leaves(got)):
        require(a.shape == b.shape, 'shape is %s instead of %s', b.shape, a.shape)
        require(a.dtype == b.dtype, 'type is %s instead of %s', b.dtype, a.dtype)
        require(np.array_equal(np.asarray(a), np.asarray(b)), 'values differ (size %d, %d batches)', size, nbatches)

    require(nbatches >= 1, 'number of batches is %d', nbatches)
    require(size == 0 or size % nbatches == 0, '%d batches with size %d', nbatches, size)
    if total <= limit:
        require(nbatches == 1, '%d batches with %d bytes and limit %d', nbatches, total, limit)
    if per > limit and size:
        require(warned, 'no warning with elements of %d bytes and limit %d', per, limit)
        require(nbatches == size, 'batches of %d elements although a single one is above the limit', size // nbatches)
    else:
        require(not warned, 'warning with elements of %d bytes and limit %d: %s', per, limit, [str(w.message) for w in log])
        require(total // nbatches <= limit, 'batches of %d bytes with limit %d', total // nbatches, limit)
    return dict(nontrivial=nbatches >= 2, labels=[case['limit'], 'plain' if case['plain'] else 'axes', 'warned' if warned else 'quiet'])


def strat_compose(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        size=st.sampled_from([2, 6, 30, 97, 64]), inner=st.sampled_from([8, 40, 100, 10 ** 6]),
        limit=st.sampled_from([8, 50, 200, 10 ** 6]), seed=st.integers(0, 2 ** 32 - 1)))


@sub('C19', strategy=strat_compose, quick=15, thorough=200, shards=1, rule='batched functions composed with batching again, vmap, jit, and grad-free scans; non-trivial always')
def compose(case):
    from harness import sut
    jnp, jax = sut.jnp, sut.jax
    rng = ref.rng_of(case['seed'])
    x = jnp.asarray(rng.integers(-100, 100, (case['size'], 3)))
    w = jnp.asarray(rng.integers(-100, 100, 3))

    def f(x, w):
        return (x * w).sum(1), x - w
    want = [np.asarray(a) for a in f(x, w)]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = sut.jaxext.autobatch(f, case['inner'], (0, None))
        h = sut.jaxext.autobatch(g, case['limit'], (0, None))
        res = dict(nested=h(x, w), jit=jax.jit(g)(x, w), twice=g(x, w))
        stack = jnp.stack([x, 2 * x])
        vm = jax.vmap(g, in_axes=(0, None))(stack, w)
    for name, r in res.items():
        for a, b in zip(want, r):
            require(np.array_equal(a, np.asarray(b)), '%s: values differ', name)
    for i in range(2):
        for a, b in zip(f(stack[i], w), vm):
            require(np.array_equal(np.asarray(a), np.asarray(b[i])), 'vmap: values differ')
    return dict(labels=[f'inner {case["inner"]}'])


# sizes not used elsewhere, because the size limit is fixed when a shape is compiled
LIBRARY = [(7, 41, 1), (7, 43, 200), (12, 37, 450), (12, 47, 3000), (30, 39, 700), (31, 38, 10), (6, 53, 100)]


def strat_library(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        what=st.sampled_from(['evaluate', 'bin', 'quantiles']), shape=st.sampled_from([list(s) for s in LIBRARY[shard::nshards]]),
        wide=st.booleans(), seed=st.integers(0, 2 ** 32 - 1)))


@sub('C19', strategy=strat_library, quick=24, thorough=300, shards=3, rule='the functions of the library that batch automatically above 512 MB, i.e., trace evaluation, binning, quantile cutpoints, run with that limit lowered to a few bytes such that they split small inputs: values equal to the definition; non-trivial always')
def library(case):
    from unittest import mock
    from harness import sut
    jnp = sut.jnp
    m, n, limit = case['shape']
    rng = ref.rng_of(case['seed'])
    orig = sut.jaxext.autobatch

    def lowered(func, *args, **kw):
        if args:
            args = (min(args[0], limit),) + args[1:]
        elif 'max_io_nbytes' in kw:
            kw['max_io_nbytes'] = min(kw['max_io_nbytes'], limit)
        return orig(func, *args, **kw)

    dtype = [np.float32, np.int32][case['wide']]
    with warnings.catch_warnings(), mock.patch.object(sut.jaxext, 'autobatch', lowered):
        warnings.simplefilter('ignore')
        if case['what'] == 'evaluate':
            t = [np.uint8, np.uint16][case['wide']]
            max_split = rng.integers(1, 8, 3)
            trees = [[ref.random_tree(rng, 3, max_split) for _ in range(m)] for _ in range(3)]
            var, split = (np.array([[x[i] for x in it] for it in trees]) for i in (0, 1))
            leaf = rng.integers(-50, 50, var.shape[:2] + (2 * var.shape[2],)).astype(np.float32)
            X = rng.integers(0, max_split[:, None] + 1, (3, n))
            got = np.asarray(sut.mcmcloop.evaluate_trace(dict(leaf_trees=jnp.asarray(leaf), var_trees=jnp.asarray(var.astype(t)), split_trees=jnp.asarray(split.astype(t))), jnp.asarray(X.astype(t))))
            want = np.zeros((3, n))
            for i in range(3):
                for j in range(m):
                    want[i] += leaf[i, j, ref.traverse(X, var[i, j], split[i, j])]
            require(got.shape == want.shape and np.array_equal(got, want), 'evaluation of a trace with %d trees in batches is wrong at %s', m, np.argwhere(got != want)[:3].tolist() if got.shape == want.shape else got.shape)
        elif case['what'] == 'bin':
            X = rng.integers(-9, 10, (m, n)).astype(dtype)
            splits = np.sort(rng.integers(-9, 10, (m, 5)), axis=1).astype(dtype)
            got = np.asarray(sut.prepcovars.bin_predictors(jnp.asarray(X), jnp.asarray(splits)))
            want = (splits[:, None, :] < X[:, :, None]).sum(2)
            require(got.dtype == np.uint8 and np.array_equal(got, want), 'bins computed in batches of predictors are wrong')
        else:
            X = (rng.integers(-9, 10, (m, n)) * 4).astype(dtype)
            splits, max_split = (np.asarray(x) for x in sut.prepcovars.quantilized_splits_from_matrix(jnp.asarray(X), n))
            huge = np.inf if dtype == np.float32 else np.iinfo(dtype).max
            require(splits.shape == (m, n - 1) and max_split.shape == (m,), 'shapes of cutpoints computed in batches: %s %s', splits.shape, max_split.shape)
            for j in range(m):
                u = np.unique(X[j])
                want = np.full(n - 1, huge, dtype)
                want[:len(u) - 1] = (u[1:] + u[:-1]) / 2
                require(max_split[j] == len(u) - 1 and np.array_equal(splits[j], want), 'cutpoints of predictor %d computed in batches are wrong', j)
    return dict(labels=[case['what']])

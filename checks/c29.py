"""C29: working memory grows only with the data, the trees and the saved samples."""

import warnings

from harness.core import require, sub

SLACK = 2 ** 22
LIMIT = 2 ** 29 # of the arrays processed at once by batched functions


def num(half_decades):
    return int(round(10 ** (half_decades / 2)))


def memory(func, *args):
    """Sizes in bytes of temporaries, arguments, outputs of a compiled function."""
    from harness import sut
    from harness.core import Skip
    with warnings.catch_warnings():
        warnings.simplefilter('ignore') # batches which can not be as small as requested
        m = sut.jax.jit(func).lower(*args).compile().memory_analysis()
    if m is None:
        raise Skip('memory analysis not available')
    return m.temp_size_in_bytes, m.argument_size_in_bytes, m.output_size_in_bytes


def nothing(**kw):
    pass


def init_args(case):
    """Shapes of data and settings of the initial state; nothing is allocated."""
    from harness import sut
    jax, jnp = sut.jax, sut.jnp
    SD = jax.ShapeDtypeStruct
    n, p, ntree, d = (case[k] for k in ('n', 'p', 'ntree', 'd'))
    dtype = getattr(jnp, case['xtype'])
    args = SD((p, n), dtype), SD((n,), jnp.float32), SD((p,), dtype), SD((d - 1,), jnp.float32)
    batch = case['batch']
    kw = dict(min_points_per_leaf=case['minpts'], save_ratios=case['ratios'], small_float=sut.dtype_of(case['small']),
              resid_batch_size=max(1, n // batch) if isinstance(batch, int) else batch)
    make = lambda X, y, max_split, p_nonterminal: sut.mcmcstep.init(X=X, y=y, max_split=max_split, num_trees=ntree, p_nonterminal=p_nonterminal, sigma2_alpha=1.5, sigma2_beta=1.5, **kw)
    return make, args


def unit(case):
    """Sizes that the memory can be proportional to."""
    n, p, ntree, d = (case[k] for k in ('n', 'p', 'ntree', 'd'))
    return 4 * n + 4 * ntree * 2 ** d + 4 * ntree * p


def strat(shard, nshards):
    from hypothesis import strategies as st

    def fix(c):
        c = dict(c)
        c.update(n=num(c['n']), p=num(c['p']), ntree=num(c['ntree']))
        # not beyond what a large computer can do
        while c['ntree'] * 2 ** c['d'] > 3e7:
            c['d'] -= 1
        while c['n'] * c['p'] > 3e10:
            c['p'] = max(1, c['p'] // 3)
        while c['n'] * c['ntree'] > 3e10 or c['ntree'] * c['p'] > 1e9:
            c['ntree'] = max(1, c['ntree'] // 3)
        return c
    return st.fixed_dictionaries(dict(
        n=st.integers(0, 15), p=st.integers(0, 11), ntree=st.integers(0, 9), d=st.integers(2, 14), xtype=st.sampled_from(['uint8', 'uint16', 'uint32']),
        minpts=st.sampled_from([None, 5]), ratios=st.booleans(), small=st.sampled_from(['f32', 'f32', 'f16']), batch=st.sampled_from([None, 'auto', 'auto', 1, 10, 64]),
        nb=st.sampled_from([0, 1, 100, 10000]), ns=st.sampled_from([0, 1, 30, 1000]), nk=st.sampled_from([1, 2, 1000]))).map(fix)


def show(case):
    return ', '.join(f'{k}={v}' for k, v in case.items())


def size(tree):
    from harness import sut
    return sum(x.size * x.dtype.itemsize for x in sut.jax.tree_util.tree_leaves(tree) if not sut.jnp.issubdtype(x.dtype, sut.jax.dtypes.prng_key))


def length(func, *args):
    """Number of operations in a program, with the bodies of loops counted once."""
    from harness import sut
    jax = sut.jax

    def count(jaxpr):
        n = 0
        for eqn in jaxpr.eqns:
            n += 1
            for v in eqn.params.values():
                for x in v if isinstance(v, (tuple, list)) else [v]:
                    x = getattr(x, 'jaxpr', x)
                    if hasattr(x, 'eqns'):
                        n += count(x)
        return n
    return count(jax.make_jaxpr(func)(*args).jaxpr)


@sub('C29', strategy=strat, quick=5, thorough=50, shards=8, rule='sizes of the problem over many orders of magnitude (up to 3e7 datapoints, 3e5 predictors, 3e4 trees), types and options, and lengths of the chain; one step and the whole chain are compiled, without executing them, and their memory is compared with a bound proportional to datapoints, trees, trees times predictors, with the state; non-trivial if that is at least 100 times less than storing a float for each datapoint and predictor, each datapoint and tree, or each node at each iteration')
def chain(case):
    from harness import sut
    jax = sut.jax
    n, p, ntree, d = (case[k] for k in ('n', 'p', 'ntree', 'd'))
    nb, ns, nk = case['nb'], case['ns'], case['nk']
    make, args = init_args(case)
    state = jax.eval_shape(make, *args)
    key = jax.eval_shape(lambda: sut.random.key(0))
    run = lambda s, k: sut.mcmcloop.run_mcmc(s, nb, ns, nk, nothing, k)
    few = lambda s, k: sut.mcmcloop.run_mcmc(s, min(nb, 2), min(ns, 2), min(nk, 2), nothing, k)
    _, burnin, main = jax.eval_shape(run, state, key)
    work = 12 * unit(case) + SLACK
    out = size(state)

    temp, _, o = memory(make, *args)
    require(temp <= work + out, 'making the initial state takes %.3g bytes, for a state of %.3g and an allowance of %.3g: %s', temp, out, work, show(case))
    temp, _, o = memory(sut.mcmcstep.step, state, key)
    require(temp <= work + 1.5 * out, 'a step takes %.3g bytes, for a state of %.3g and an allowance of %.3g: %s', temp, out, work, show(case))
    require(o <= out + SLACK, 'the output of a step takes %.3g bytes instead of %.3g', o, out)
    temp, _, o = memory(run, state, key)
    require(temp <= work + 4 * out, 'the chain takes %.3g bytes, for a state of %.3g and an allowance of %.3g: %s', temp, out, work, show(case))
    trace = size(burnin) + size(main)
    sample = 8 * ntree * (2 if case['ratios'] else 0) + 20 # what is allowed to be in the trace in addition to the trees
    tree = ntree * (2 ** d * 4 + 2 ** (d - 1) * (4 + 4))
    require(trace <= (nb + ns) * sample + ns * tree, 'the trace takes %.3g bytes: %s', trace, show(case))
    require(o <= out + trace + SLACK, 'the output of the chain takes %.3g bytes, for a state of %.3g and a trace of %.3g: %s', o, out, trace, show(case))

    # nothing is unrolled
    a, b = length(run, state, key), length(few, state, key)
    require(a <= 2 * b, 'the program has %d operations with n_burn=%d, n_save=%d, n_skip=%d and %d with fewer iterations', a, nb, ns, nk, b)
    small = dict(case, n=min(n, 20), p=min(p, 3), ntree=min(ntree, 3))
    make2, args2 = init_args(small)
    b = length(sut.mcmcstep.step, jax.eval_shape(make2, *args2), key)
    a = length(sut.mcmcstep.step, state, key)
    require(a <= 2 * b + 200, 'a step has %d operations, and %d for a smaller problem: %s', a, b, show(case))
    big = 4 * max(n * p, n * ntree, (nb + ns * nk) * tree)
    return dict(nontrivial=100 * work <= big, labels=[f'n=1e{len(str(n)) - 1}', f'p=1e{len(str(p)) - 1}', f'ntree=1e{len(str(ntree)) - 1}'])


def strat_eval(shard, nshards):
    from hypothesis import strategies as st

    def fix(c):
        c = dict(c)
        c.update(m=num(c['m']), p=num(c['p']), ntree=num(c['ntree']), T=num(c['T']))
        while c['ntree'] * 2 ** c['d'] > 3e7:
            c['d'] -= 1
        while c['m'] * c['p'] > 3e10:
            c['p'] = max(1, c['p'] // 3)
        while c['m'] * c['ntree'] > 3e9:
            c['ntree'] = max(1, c['ntree'] // 3)
        return c
    return st.fixed_dictionaries(dict(m=st.integers(0, 14), p=st.integers(1, 11), ntree=st.integers(1, 9), d=st.integers(2, 14), T=st.integers(0, 8),
        xtype=st.sampled_from(['uint8', 'uint16', 'uint32']), small=st.sampled_from(['f32', 'f16']))).map(fix)


@sub('C29', strategy=strat_eval, quick=12, thorough=150, shards=8, rule='predictions with sizes over many orders of magnitude (up to 1e7 points, 3e5 predictors, 3e4 trees, 1e4 samples), compiled without executing; the memory must not grow with the number of samples, nor with predictors times points, and grow less steeply when the values of single trees are large; non-trivial if predictors or samples times points are at least 30 times larger than allowed')
def predictions(case):
    from harness import sut
    jax, jnp = sut.jax, sut.jnp
    SD = jax.ShapeDtypeStruct
    T, nt, d, m, p = (case[k] for k in ('T', 'ntree', 'd', 'm', 'p'))
    dt = getattr(jnp, case['xtype'])

    def args(nt):
        trace = dict(leaf_trees=SD((T, nt, 2 ** d), sut.dtype_of(case['small'])), var_trees=SD((T, nt, 2 ** (d - 1)), sut.min_uint(p - 1)), split_trees=SD((T, nt, 2 ** (d - 1)), dt))
        return trace, SD((p, m), dt)
    temp, _, o = memory(sut.mcmcloop.evaluate_trace, *args(nt))
    values = 4 * m * nt
    trees = 16 * nt * 2 ** d
    work = 2 * (values + trees) + 16 * max(min(values + trees, LIMIT), values // nt + 16 * 2 ** d) + SLACK
    require(temp <= work, 'predictions take %.3g bytes, for an allowance of %.3g: %s', temp, work, show(case))
    require(o <= 4 * T * m + SLACK, 'the output of predictions takes %.3g bytes', o)
    a, b = (length(sut.mcmcloop.evaluate_trace, *args(k)) for k in (nt, 2))
    require(a <= 2 * b + 200, 'predicting has %d operations with %d trees and %d with 2', a, nt, b)
    return dict(nontrivial=30 * work <= 4 * max(p * m, T * m * nt), labels=[f'm=1e{len(str(m)) - 1}', 'large' if values > LIMIT else 'small'])


def strat_prep(shard, nshards):
    from hypothesis import strategies as st

    def fix(c):
        c = dict(c)
        c.update(n=num(c['n']), p=num(c['p']), bins=num(c['bins']))
        while c['n'] * c['p'] > 3e10:
            c['p'] = max(1, c['p'] // 3)
        while c['bins'] * c['p'] > 1e10:
            c['bins'] = max(2, c['bins'] // 3)
        return c
    return st.fixed_dictionaries(dict(n=st.integers(0, 16), p=st.integers(0, 11), bins=st.sampled_from([1, 3, 4, 5, 6, 9]), dtype=st.sampled_from(['float32', 'int32', 'uint8', 'float16']))).map(fix)


@sub('C29', strategy=strat_prep, quick=25, thorough=300, shards=4, rule='computation of cutpoints and binning with sizes over many orders of magnitude, compiled without executing; the memory is proportional to that of the data up to a limit of 512 MB, or to the data of a single predictor; non-trivial if the data exceed the limit')
def binning(case):
    from harness import sut
    jax, jnp = sut.jax, sut.jnp
    SD = jax.ShapeDtypeStruct
    n, p, bins = case['n'], case['p'], case['bins']
    X = SD((p, n), getattr(jnp, case['dtype']))
    S = SD((p, max(1, bins - 1)), X.dtype)
    for name, func, args in (
        ('quantile cutpoints', lambda X: sut.prepcovars.quantilized_splits_from_matrix(X, bins), (X,)),
        ('uniform cutpoints', lambda X: sut.prepcovars.uniform_splits_from_matrix(X, bins), (X,)),
        ('binning', sut.prepcovars.bin_predictors, (X, S)),
    ):
        if name.startswith('uniform') and bins < 2:
            continue
        temp, a, o = memory(func, *args)
        row = (a + o) // p
        work = 24 * max(min(a + o, LIMIT), row) + SLACK
        require(temp <= work, '%s: %.3g bytes, for an allowance of %.3g: %s', name, temp, work, show(case))
    return dict(nontrivial=n * p * X.dtype.itemsize > LIMIT, labels=[case['dtype']])


def strat_gpu(shard, nshards):
    from hypothesis import strategies as st

    def fix(c):
        c = dict(c, n=num(c['n']), ntree=num(c['ntree']))
        c['n'] += c['more'] * c['n'] // 10
        while c['ntree'] * 2 ** c['d'] > 1e9:
            c['d'] -= 1
        return c
    return st.fixed_dictionaries(dict(n=st.integers(0, 18), more=st.integers(0, 20), ntree=st.integers(0, 12), d=st.integers(2, 14))).map(fix)


@sub('C29', strategy=strat_gpu, quick=100, thorough=1000, shards=2, rule='batch sizes chosen automatically with a fake gpu, for up to 3e9 datapoints and 1e9 nodes; the counts of datapoints in each node for each batch must take at most 512 MB (plus one batch); non-trivial if they would take more with batches of size 1')
def gpu(case):
    from unittest import mock
    from harness import sut
    from checks.c26 import Device
    jax, jnp = sut.jax, sut.jnp
    SD = jax.ShapeDtypeStruct
    n, ntree, d = case['n'], case['ntree'], case['d']

    def make(X, y, max_split, p_nonterminal):
        return sut.mcmcstep.init(X=X, y=y, max_split=max_split, num_trees=ntree, p_nonterminal=p_nonterminal, sigma2_alpha=1., sigma2_beta=1.)
    with mock.patch.object(jax, 'devices', lambda *a, **k: [Device('gpu')]):
        s = jax.eval_shape(make, SD((1, n), jnp.uint8), SD((n,), jnp.float32), SD((1,), jnp.uint8), SD((d - 1,), jnp.float32))
    forest = 4 * ntree * 2 ** d
    count, resid = s['opt']['count_batch_size'], s['opt']['resid_batch_size']
    nbatch = 1 if count is None else -(-n // count)
    require((nbatch - 1) * forest <= LIMIT, '%d datapoints in batches of %s, %d trees of depth %d: %.3g bytes', n, count, ntree, d, nbatch * forest)
    nbatch = 1 if resid is None else -(-n // resid)
    require(nbatch <= max(2, 8 * n ** 0.67), '%d datapoints in batches of %s to sum residuals', n, resid)
    return dict(nontrivial=n * forest > LIMIT, labels=[])

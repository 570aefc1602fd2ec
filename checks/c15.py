"""C15: MCMC steps are pure, reproducible and preserve the state layout."""

import copy

import numpy as np

from harness import mcmcgen, ref, reggen
from harness.core import require, sub

S = mcmcgen.shape
MENU = [
    S(20, 2, 4, 3, 'small', minpts=2, T=6),
    S(40, 3, 5, 4, 'mid', minpts=5, ratios=True, T=6),
    S(30, 2, 3, 2, 'u16', ratios=True, rb=4, cb=5, T=6),
    S(25, 4, 6, 4, 'zeros', small='f16', T=6),
    S(0, 2, 3, 2, 'small', T=6),
    S(17, 260, 4, 2, 'small', minpts=1, rb=None, cb=None, T=6),
    S(64, 2, 6, 8, 'mid', minpts=3, small='bf16', ratios=True, T=6),
    S(10, 2, 2, 1, 'bin', T=6),
]


def strat(shard, nshards):
    return mcmcgen.config(shard, nshards, MENU)


def snapshot(state):
    """Identity of containers and leaves, and copy of values, of a nested dict."""
    out = {}

    def rec(path, x):
        if isinstance(x, dict):
            out[path] = ('dict', type(x), sorted(x))
            for k, v in x.items():
                rec(path + (k,), v)
        elif x is None or not hasattr(x, 'dtype') or not hasattr(x, 'shape'):
            out[path] = ('other', repr(x))
        else:
            out[path] = ('array', id(x), str(x.dtype), np.array(x))
    rec((), state)
    return out


def same_snapshot(a, b):
    if sorted(a, key=repr) != sorted(b, key=repr):
        return 'fields changed'
    for k in a:
        x, y = a[k], b[k]
        if x[0] != y[0]:
            return f'{k} changed kind'
        if x[0] == 'array':
            if x[1:3] != y[1:3] or x[3].tobytes() != y[3].tobytes():
                return f'{k} changed'
        elif x != y:
            return f'{k} changed from {x[1:]} to {y[1:]}'
    return None


def layout(state):
    import jax
    leaves, tree = jax.tree_util.tree_flatten_with_path(state)
    return [(jax.tree_util.keystr(p), tuple(x.shape), str(x.dtype)) for p, x in leaves], tree


def close(a, b):
    """None if two states are equal up to roundoff, else the name of a field."""
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, dict):
            if k != 'opt':
                r = close(x, y)
                if r:
                    return r
            continue
        if x is None or not hasattr(x, 'dtype'):
            continue
        low = str(x.dtype) in ('float16', 'bfloat16')
        if str(x.dtype).startswith(('float', 'bfloat')):
            x, y = np.asarray(x, np.float64), np.asarray(y, np.float64)
            mag = max(1., np.max(np.abs(x[np.isfinite(x)]), initial=0))
            if not np.allclose(x, y, rtol=0, atol=(3e-2 if low else 1e-3) * mag, equal_nan=True):
                return f'{k} (by up to {np.nanmax(np.abs(x - y))})'
        elif not np.array_equal(x, y):
            return k
    return None


_cache = {}


def funcs(sut):
    if not _cache:
        _cache['jit'] = sut.jax.jit(sut.mcmcstep.step)
        _cache['jit2'] = sut.jax.jit(lambda s, k: sut.mcmcstep.step(s, k))
        _cache['vmap'] = sut.jax.jit(sut.jax.vmap(lambda s, k: sut.mcmcstep.step(s, k), in_axes=(None, 0)))
    return _cache


@sub('C15', strategy=strat, quick=5, thorough=60, shards=8, rule='an initial or generated state and a key; an eager step leaves its input alone, keeps the layout, is repeatable, agrees with the compiled and vectorized ones up to roundoff, other keys give other draws; every case is non-trivial')
def step(case):
    from harness import sut
    state = mcmcgen.start_state(case)
    keys = [sut.key_of(case['key'], i) for i in range(4)]
    f = funcs(sut)

    before = snapshot(state)
    kdata = np.array(sut.random.key_data(keys[0]))
    new = sut.mcmcstep.step(state, keys[0])
    msg = same_snapshot(before, snapshot(state))
    require(msg is None, 'the input state is modified: %s', msg)
    require(new is not state, 'the output is the input object')
    require(np.array_equal(kdata, np.array(sut.random.key_data(keys[0]))), 'the key is modified')
    require(layout(new) == layout(state), 'layout of the state changed: %s', [x for x in zip(layout(state)[0], layout(new)[0]) if x[0] != x[1]][:3])

    # next step from the output, then again both
    new_before = snapshot(new)
    new2 = sut.mcmcstep.step(new, keys[1])
    require(layout(new2) == layout(state), 'layout of the state changed at the second step')
    msg = same_snapshot(before, snapshot(state)) or same_snapshot(new_before, snapshot(new))
    require(msg is None, 'a previous state is modified: %s', msg)
    again = sut.mcmcstep.step(state, keys[0])
    diff = sut.same_tree(sut.npz(dict(new, opt=0)), sut.npz(dict(again, opt=0)))
    require(diff is None, 'a step repeated with the same state and key differs in %s', diff)

    # compiled and vectorized
    msgs = []
    vm = f['vmap'](state, sut.jnp.stack(keys[:3]))
    for i in range(3):
        e = new if i == 0 else sut.mcmcstep.step(state, keys[i])
        j = f['jit'](state, keys[i])
        if i == 0:
            require(layout(j) == layout(state), 'layout changes under jit')
            j2 = f['jit'](state, keys[i])
            diff = sut.same_tree(sut.npz(dict(j, opt=0)), sut.npz(dict(j2, opt=0)))
            require(diff is None, 'a compiled step repeated with the same state and key differs in %s', diff)
        v = {k: (None if x is None else x if k == 'opt' else sut.jax.tree_util.tree_map(lambda x: x[i], x)) for k, x in vm.items()}
        d1, d2 = close(e, j), close(e, v)
        msgs.append(f'eager and compiled steps differ in {d1}' if d1 else f'eager and vectorized steps differ in {d2}' if d2 else None)
        if msgs[-1] is None:
            break
    require(None in msgs, '%s', msgs[0])

    draws = [np.asarray(sut.mcmcstep.step(state, k)['sigma2']) if case['shape']['n'] == 0 else np.asarray(f['jit'](state, k)['sigma2']) for k in keys]
    require(len({float(x) for x in draws}) >= 3, 'different keys give the same draws: sigma2 = %s', draws)
    leaf = [np.asarray(f['jit'](state, k)['leaf_trees'][:, 1], np.float64) for k in keys]
    require(all(not np.array_equal(leaf[0], x) for x in leaf[1:]), 'different keys give the same leaf values')
    return dict(labels=[case['start'], case['shape']['small']])

LMENU = [S(20, 2, 4, 3, 'small', minpts=2, T=6), S(31, 3, 3, 2, 'mid', ratios=True, rb=4, T=6), S(12, 2, 5, 4, 'zeros', small='f16', T=6)]


def strat_loop(shard, nshards):
    from hypothesis import strategies as st
    return mcmcgen.config(shard, nshards, LMENU, dict(nb=st.sampled_from([0, 2]), ns=st.sampled_from([1, 3]), nk=st.sampled_from([1, 2])))


def nothing(**kw):
    pass


@sub('C15', strategy=strat_loop, quick=4, thorough=40, shards=3, rule='whole MCMC loops vectorized over keys, and steps vectorized over states and keys: each element equal, up to roundoff, to the one run alone, for at least one of four chains (roundoff may change a decision); every case is non-trivial')
def loop(case):
    from harness import sut
    jax, jnp = sut.jax, sut.jnp
    state = mcmcgen.start_state(case)
    keys = [sut.key_of(case['key'], i) for i in range(4)]
    args = case['nb'], case['ns'], case['nk'], nothing
    item = lambda tree, i: jax.tree_util.tree_map(lambda x: x[i], tree)
    before = snapshot(state)
    many = jax.vmap(lambda k: sut.mcmcloop.run_mcmc(state, *args, k))(jnp.stack(keys))
    diffs = []
    for i in range(4):
        one = sut.mcmcloop.run_mcmc(state, *args, keys[i])
        mine = item(many, i)
        for name, a, b in zip(('final state', 'burn-in trace', 'main trace'), one, mine):
            require(layout(a)[0] == layout(b)[0], 'layout of %s changes when vectorizing the loop', name)
        diffs.append(next((f'{name}: {d}' for name, a, b in zip(('final state', 'burn-in trace', 'main trace'), one, mine) for d in [close(a, b)] if d), None))
        if diffs[-1] is None:
            break
    require(None in diffs, 'the loop vectorized over keys differs from the loop: %s', diffs[0])

    finals = many[0]
    step = jax.jit(jax.vmap(sut.mcmcstep.step))(finals, jnp.stack(keys))
    diffs = []
    for i in range(4):
        one = funcs(sut)['jit'](item(finals, i), keys[i])
        require(layout(one)[0] == layout(item(step, i))[0], 'layout changes when vectorizing a step over states')
        diffs.append(close(one, item(step, i)))
        if diffs[-1] is None:
            break
    require(None in diffs, 'a step vectorized over states differs from the step: %s', diffs[0])
    msg = same_snapshot(before, snapshot(state))
    require(msg is None, 'the input state is modified: %s', msg)
    return dict(labels=[f'{case["nb"]} {case["ns"]} {case["nk"]}'])


RMENU = [
    reggen.shape(30, 2, 9, ntree=4, d=4),
    reggen.shape(25, 3, 12, ntree=3, quants=True, numcut=255),
    reggen.shape(60, 4, 5, ntree=8, keep=2),
]
FIELDS = ('yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean', 'sigma', 'first_sigma', 'offset', 'scale', 'lamda', 'sigest')


def strat_reg(shard, nshards):
    from hypothesis import strategies as st
    return reggen.config(shard, nshards, RMENU, dict(container=st.sampled_from(['numpy', 'jax', 'pandas', 'polars']), initkw=st.sampled_from(['', 'minpts', 'batch']), seedkind=st.sampled_from(['int', 'negative', 'numpy', 'small'])))


def attrs(b):
    return {k: np.asarray(getattr(b, k)) if getattr(b, k) is not None else None for k in FIELDS}


@sub('C15', strategy=strat_reg, quick=6, thorough=60, shards=6, rule='a dataset (numpy, jax, dataframe) and settings; the regression repeated with the same seed is identical, an integer seed is the same as the key made from it, different seeds differ, arguments are not modified, other regressions run in between do not matter; every case is non-trivial')
def regression(case):
    from harness import sut
    X, y, T = reggen.data(case)
    initkw = {'': {}, 'minpts': dict(min_points_per_leaf=2), 'batch': dict(resid_batch_size=8, count_batch_size=None, save_ratios=True)}[case['initkw']]
    kind = case['container']
    if kind == 'numpy':
        args = [X.copy(), y.copy(), T.copy()]
        values = lambda: [np.array(a) for a in args]
    elif kind == 'jax':
        args = [sut.jnp.asarray(a) for a in (X, y, T)]
        values = lambda: [np.array(a) for a in args]
    else:
        import pandas as pd
        import polars as pl
        mod = pd if kind == 'pandas' else pl
        cols = [f'x{i}' for i in range(len(X))]
        frame = (lambda A: pd.DataFrame(A.T, columns=cols)) if kind == 'pandas' else (lambda A: pl.DataFrame(A.T, schema=cols))
        series = pd.Series(y, name='y') if kind == 'pandas' else pl.Series('y', y)
        args = [frame(X), series, frame(T)]
        values = lambda: [np.array(a.to_numpy()) for a in args] + [np.array(list(args[0].columns))]
    kw = reggen.settings(case, y)
    if initkw or case['key'] % 2:
        kw['initkw'] = dict(initkw)
    if args[2].shape and T.shape[1]:
        kw['x_test'] = args[2]
    kw0 = {k: copy.copy(v) for k, v in kw.items() if k != 'x_test'}
    v0 = values()
    value = case['key']
    seed = {'int': value, 'negative': -1 - value % 2 ** 31, 'numpy': np.int64(value % 2 ** 31), 'small': value % 3}[case.get('seedkind', 'int')]
    kw['seed'] = kw0['seed'] = seed
    key = sut.random.key(seed)
    kd = np.array(sut.random.key_data(key))

    a = attrs(sut.gbart(args[0], args[1], **kw))
    # an unrelated regression in between, with other settings
    other = {'': dict(min_points_per_leaf=1, save_ratios=True, resid_batch_size=4), 'minpts': {}, 'batch': dict(min_points_per_leaf=None)}[case['initkw']]
    sut.gbart(X[:1, :9] * 2, y[:9] + 1, ntree=2, maxdepth=3, numcut=3, ndpost=2, nskip=1, printevery=10 ** 6, k=1, base=0.5, sigdf=5, offset=1., seed=3, initkw=other)
    # a related one too, whose result is known exactly
    kw2 = dict(kw)
    if T.shape[1]:
        kw2['x_test'] = 2 * T
    twice = attrs(sut.gbart(2 * X, y, **kw2))
    b = attrs(sut.gbart(args[0], args[1], **kw))
    c = attrs(sut.gbart(args[0], args[1], **dict(kw, seed=key)))
    c2 = attrs(sut.gbart(args[0], args[1], **dict(kw, seed=key)))
    d = attrs(sut.gbart(args[0], args[1], **dict(kw, seed=seed ^ 1)))
    for x, z in zip(v0, values()):
        require(x.dtype == z.dtype and np.array_equal(x, z), 'the data passed by the user is modified')
    for k, v in kw0.items():
        require(kw[k] == v, 'argument %s is modified: %s', k, kw[k])
    require(np.array_equal(kd, np.array(sut.random.key_data(key))), 'the key is modified')
    if case['priors'] in ('lamda', 'sigest', 'all'): # else the noise estimate has roundoff
        for k in FIELDS:
            if not (k.startswith('yhat_test') and case['shape']['quants'] and X.dtype.kind == 'i'):
                require(a[k] is None and twice[k] is None or np.array_equal(a[k], twice[k]), 'the regression on doubled predictors, run in the same process, differs in %s', k)
    for name, other in (('repeated with the same seed', b), ('run with the key made from the seed', c), ('repeated with the same key', c2)):
        diff = sut.same_tree(a, other)
        require(diff is None, 'the regression %s differs in %s', name, diff)
    for k in ('sigma', 'yhat_train'):
        require(not np.array_equal(a[k], d[k]), 'different seeds give the same %s', k)
    for k in ('offset', 'scale', 'lamda', 'sigest'):
        require(a[k] is None and d[k] is None or np.array_equal(a[k], d[k]), '%s depends on the seed', k)
    return dict(labels=[kind, case['initkw'], case['priors'], f'seed {case["seedkind"]}'])


HMENU = [
    reggen.shape(24, 2, 6, ntree=3, d=4),
    reggen.shape(20, 3, 5, ntree=4, d=3, quants=True, numcut=30),
    reggen.shape(40, 2, 8, ntree=2, d=4, numcut=255, ndpost=5),
]
MODS = ['same', 'inner', 'double', 'one', 'reverse', 'y', 'y inner', 'y one', 'y permute', 'test', 'all']
CHANGES = ['same', 'same', 'same', 'k', 'lamda', 'base', 'offset', 'numcut', 'seed', 'initkw', 'data type']


def strat_history(shard, nshards):
    from hypothesis import strategies as st
    part = st.fixed_dictionaries(dict(mod=st.sampled_from(MODS), change=st.sampled_from(CHANGES), seed=st.integers(0, 2 ** 32 - 1), predict=st.booleans()))
    return reggen.config(shard, nshards, HMENU, dict(
        priors=st.sampled_from(['default', 'deep', 'lamda', 'sigest']), xkind=st.sampled_from(['normal', 'uniform', 'grid', 'int']),
        history=st.lists(part, min_size=1, max_size=3)))


def modify(case, mod, seed, X, y, T):
    """Change the arrays in place."""
    rng = ref.rng_of(seed, 21)
    X2 = reggen.make_X(rng, case['xkind'], *X.shape)
    if mod in ('inner', 'all'):
        first, last = X[0, 0], X[-1, -1]
        X[:] = X2
        if mod == 'inner':
            X[0, 0], X[-1, -1] = first, last
    elif mod == 'double':
        X *= 2
    elif mod == 'one':
        X[rng.integers(len(X)), rng.integers(X.shape[1])] += 5
    elif mod == 'reverse':
        X[:] = X[:, ::-1].copy()
    if mod in ('y', 'y inner', 'all'):
        y[mod == 'y inner':len(y) - (mod == 'y inner')] = (y + 2 * np.std(y) * rng.standard_normal(len(y)))[mod == 'y inner':len(y) - (mod == 'y inner')]
    elif mod == 'y one':
        y[rng.integers(len(y))] += np.ptp(y)
    elif mod == 'y permute':
        y[:] = rng.permutation(y)
    if mod in ('test', 'all'):
        T[:] = reggen.make_X(rng, case['xkind'], *T.shape)


def fresh_gbart():
    """The regression of a newly imported library, without anything remembered."""
    import importlib
    import sys
    mine = lambda: [k for k in sys.modules if k == 'bartz' or k.startswith('bartz.')]
    saved = {k: sys.modules.pop(k) for k in mine()}
    try:
        return importlib.import_module('bartz.BART').gbart
    finally:
        for k in mine():
            del sys.modules[k]
        sys.modules.update(saved)


@sub('C15', strategy=strat_history, quick=3, thorough=40, shards=6, rule='a sequence of 2 to 4 regressions and predictions in the same process on the same arrays, changed in place in between, with some settings changed; the last one compared bitwise with the same call in a newly imported library on copies of the data, and predictions of the first one repeated at the end; every case is non-trivial')
def history(case):
    from harness import sut
    X, y, T = (np.array(a) for a in reggen.data(case))
    kw = reggen.settings(case, y)
    first = None
    for i, part in enumerate([dict(mod='same', change='same', seed=0, predict=True)] + case['history']):
        modify(case, part['mod'], part['seed'], X, y, T)
        ch = part['change']
        if ch == 'k':
            kw['k'] = 3 * kw.get('k', 2)
        elif ch == 'lamda':
            kw['lamda'] = 2 * kw.get('lamda', 0.5)
        elif ch == 'base':
            kw['base'] = 0.5
        elif ch == 'offset':
            kw['offset'] = float(y[0])
        elif ch == 'numcut':
            kw['numcut'] -= 1
        elif ch == 'seed':
            kw['seed'] += 1
        elif ch == 'initkw':
            kw['initkw'] = dict(min_points_per_leaf=1 + i)
        elif ch == 'data type' and X.dtype.kind == 'f':
            X = np.trunc(8 * X).astype(np.int32)
            T = np.trunc(8 * T).astype(np.int32)
        b = sut.gbart(X, y, x_test=T, **kw)
        got = attrs(b)
        got['predict'] = np.asarray(b.predict(T)).copy()
        got['train'] = np.asarray(b.predict(X)).copy()
        if part['predict']:
            # the same arrays with other contents
            last = X[:, :T.shape[1]].copy()
            old = T.copy()
            T[:] = last
            other = np.asarray(b.predict(T)).copy()
            require(np.array_equal(other, got['train'][:, :T.shape[1]]), 'predictions at an array changed in place, now with training points, are not the training fit')
            T[:] = old
        if first is None:
            first = b, T.copy(), got['predict']
    want_b = fresh_gbart()(X.copy(), y.copy(), x_test=T.copy(), **kw)
    want = attrs(want_b)
    want['predict'] = np.asarray(want_b.predict(T.copy()))
    want['train'] = np.asarray(want_b.predict(X.copy()))
    diff = sut.same_tree(got, want)
    require(diff is None, 'after the history %s, %s of the last regression differs from the same regression run afresh', [(p['mod'], p['change']) for p in case['history']], diff)
    b, T0, pred = first
    require(np.array_equal(np.asarray(b.predict(T0)), pred), 'predictions of the first regression change after the others')
    return dict(labels=sorted({p['mod'] for p in case['history']} | {'set ' + p['change'] for p in case['history']}))

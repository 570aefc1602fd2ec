"""C24: equivalent encodings of the data give identical regressions."""

import numpy as np

from harness import ref, reggen
from harness.core import Violation, require, sub

R = reggen.shape
MENU = [
    R(30, 2, 9, ntree=4, d=4),
    R(64, 3, 12, ntree=8, quants=True, numcut=255),
    R(16, 20, 5, ntree=3, d=4),
    R(50, 1, 20, ntree=10, d=6, keep=2),
    R(32, 5, 6, ntree=2, d=3, quants=True, ndpost=4, nskip=10),
    R(12, 2, 4, ntree=4, d=4),
]
FIELDS = ('yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean', 'sigma', 'first_sigma', 'offset', 'scale', 'lamda', 'sigest')


def strat(shard, nshards):
    from hypothesis import strategies as st
    return reggen.config(shard, nshards, MENU, dict(
        xc=st.lists(st.sampled_from(['jax', 'pandas', 'polars', 'pandas index', 'pandas mixed', 'float64', 'fortran']), min_size=2, max_size=4, unique=True),
        yc=st.lists(st.sampled_from(['jax', 'pandas', 'polars', 'pandas index', 'float64', 'strided']), min_size=4, max_size=4)))


def columns(p):
    return [f'x{i}' for i in range(p)]


def frame(kind, A, cols=None):
    """Predictors matrix (p, n) in another container."""
    import pandas as pd
    import polars as pl
    from harness import sut
    cols = columns(len(A)) if cols is None else cols
    if kind == 'jax':
        return sut.jnp.asarray(A)
    if kind == 'pandas':
        return pd.DataFrame(A.T, columns=cols)
    if kind == 'pandas index': # arbitrary row labels do not matter
        return pd.DataFrame(A.T, columns=cols, index=np.arange(A.shape[1])[::-1] * 3 - 7)
    if kind == 'pandas mixed': # columns of different types
        return pd.DataFrame({c: A[i].astype([A.dtype, np.float64][i % 2]) for i, c in enumerate(cols)})
    if kind == 'polars':
        return pl.DataFrame({c: A[i] for i, c in enumerate(cols)})
    if kind == 'float64':
        return A.astype(np.float64) if A.dtype.kind == 'f' else A.astype(np.int64)
    if kind == 'fortran':
        return np.asfortranarray(A)
    return A


def series(kind, y):
    import pandas as pd
    import polars as pl
    from harness import sut
    if kind == 'jax':
        return sut.jnp.asarray(y)
    if kind == 'pandas':
        return pd.Series(y, name='response')
    if kind == 'pandas index':
        return pd.Series(y, index=np.arange(len(y))[::-1] + 100)
    if kind == 'polars':
        return pl.Series('response', y)
    if kind == 'float64':
        return y.astype(np.float64)
    if kind == 'strided':
        return np.repeat(y, 2)[::2]
    return y


def attrs(b):
    return {k: np.asarray(getattr(b, k)) if getattr(b, k, None) is not None else None for k in FIELDS}


@sub('C24', strategy=strat, quick=8, thorough=80, shards=6, rule='the same data as numpy, jax, pandas, polars containers in several layouts, in training and prediction: identical results; non-trivial if some tree has decision nodes')
def containers(case):
    from harness import sut
    X, y, T = reggen.data(case)
    b = reggen.fit(case, X, y, T)
    want = attrs(b)
    for xc, yc in zip(case['xc'], case['yc']):
        if xc == 'pandas mixed' and X.dtype.kind == 'i' and len(X) > 1:
            base = attrs(reggen.fit(case, X.astype(np.float32), y, T.astype(np.float32)))
        else:
            base = want
        kw = reggen.settings(case, y)
        if T.shape[1]:
            kw['x_test'] = frame(xc, T)
        other = sut.gbart(frame(xc, X), series(yc, y), **kw)
        diff = sut.same_tree(base, attrs(other))
        require(diff is None, 'predictors as %s and responses as %s give a different %s', xc, yc, diff)
        again = np.asarray(other.predict(frame(xc, T)))
        require(np.array_equal(again, base['yhat_test']), 'prediction at %s differs', xc)
    return dict(nontrivial=bool((np.asarray(sut.main_trace(b)['split_trees']) > 0).any()), labels=case['xc'] + case['yc'])


def strat_types(shard, nshards):
    from hypothesis import strategies as st
    return reggen.config(shard, nshards, MENU, dict(
        xt=st.lists(st.sampled_from(['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32']), min_size=2, max_size=2, unique=True),
        yt=st.lists(st.sampled_from(['int8', 'uint8', 'int16', 'uint16', 'int32', 'int8', 'uint8']), min_size=2, max_size=2, unique=True),
        full=st.booleans(), off=st.sampled_from([None, 0, 3, 100, 127])))


@sub('C24', strategy=strat_types, quick=8, thorough=80, shards=6, rule='integer data, possibly spanning the whole range of a type, stored in integer types of several widths or in floats, with integer settings: identical results; non-trivial if some tree has decision nodes')
def types(case):
    from harness import sut
    s = case['shape']
    rng = ref.rng_of(case['seed'], 13)
    lo, hi = -128, 127
    for t in case['xt'] + case['yt']:
        lo, hi = max(lo, np.iinfo(t).min), min(hi, np.iinfo(t).max)
    w = (lo, hi) if case['full'] else (0, 20)
    draw = lambda *shape: rng.integers(w[0], w[1], shape, endpoint=True).astype(np.float32)
    X, T = draw(s['p'], s['n']), draw(s['p'], s['m'])
    y = np.clip(np.round(draw(s['n']) / 2 + X[0] / 2), lo, hi).astype(np.float32)
    if len(y) > 3 and case['full']:
        y[0], y[1] = lo, hi
    kw = reggen.settings(case, y)
    if case['off'] is not None:
        kw['offset'] = case['off']
    if T.shape[1]:
        kw['x_test'] = T
    b = sut.gbart(X, y, **kw)
    want = attrs(b)
    for xt, yt in zip(case['xt'], case['yt']):
        if T.shape[1]:
            kw['x_test'] = T.astype(xt)
        other = sut.gbart(X.astype(xt), y.astype(yt), **kw)
        diff = sut.same_tree(want, attrs(other))
        require(diff is None, 'predictors as %s and responses as %s instead of float32 give a different %s', xt, yt, diff)
    return dict(nontrivial=bool((np.asarray(sut.main_trace(b)['split_trees']) > 0).any()), labels=case['xt'] + ['y ' + t for t in case['yt']])


def strat_reject(shard, nshards):
    from hypothesis import strategies as st
    menu = [R(20, 3, 4, ntree=10, d=4, ndpost=3, nskip=30), R(15, 1, 2, ntree=1, d=2, ndpost=1, nskip=0), R(12, 2, 12, ntree=10, d=3, ndpost=2, nskip=30, quants=True),
            R(25, 12, 4, ntree=20, d=4, ndpost=3, nskip=30), R(25, 30, 3, ntree=20, d=4, ndpost=2, nskip=10), R(15, 5, 3, ntree=10, d=4, ndpost=3, nskip=30)]
    return reggen.config(shard, nshards, menu, dict(
        xc=st.sampled_from(['numpy', 'jax', 'pandas', 'polars', 'pandas index']),
        bad=st.sampled_from(['fewer', 'more', 'container', 'renamed', 'transposed', 'short y', 'long y', 'x_test', 'one y', 'renamed last', 'reordered', 'empty', 'reordered']),
        yc=st.sampled_from(['numpy', 'jax', 'pandas', 'polars'])))


def rejected(func):
    """Whether a call raises an exception; do not mistake our own for it."""
    try:
        func()
    except (Violation, MemoryError, KeyboardInterrupt):
        raise
    except Exception:
        return True
    return False


@sub('C24', strategy=strat_reject, quick=50, thorough=300, shards=3, rule='predictors incompatible with the training ones in number, names, kind of container, or responses of a different length: rejected with an exception; every case is non-trivial')
def rejections(case):
    from harness import sut
    X, y, T = reggen.data(case)
    xc, yc, bad = case['xc'], case['yc'], case['bad']
    p, n = X.shape
    kw = reggen.settings(case, y)
    isframe = xc in ('pandas', 'polars', 'pandas index')
    if bad in ('short y', 'long y', 'one y'):
        z = {'short y': y[:-1], 'long y': np.append(y, y[:1]), 'one y': y[:1]}[bad]
        require(rejected(lambda: sut.gbart(frame(xc, X), series(yc, z), **kw)), '%d predictors and %d responses accepted', n, len(z))
        return dict(labels=[bad])
    Tx = T if T.shape[1] else X[:, :3]
    extra = np.concatenate([Tx, Tx[:1]])
    names = columns(p)
    if bad == 'fewer':
        if p == 1:
            return dict(nontrivial=False)
        wrong = frame(xc, Tx[:-1])
    elif bad == 'more':
        wrong = frame(xc, extra)
    elif bad == 'empty':
        wrong = frame(xc, extra[:, :0])
    elif bad == 'container':
        wrong = frame('numpy' if isframe else 'pandas', Tx)
    elif bad == 'transposed':
        m = 3 if p != 3 else 4
        wrong = frame(xc, np.resize(Tx, (m, p)))
    elif bad in ('renamed', 'renamed last', 'reordered'):
        if not isframe:
            wrong = frame(xc, extra)
        else:
            new = list(names)
            new[-1 if bad == 'renamed last' else case['seed'] % p] = 'other'
            if bad == 'reordered':
                if p == 1:
                    return dict(nontrivial=False)
                new = names[::-1]
                if case['seed'] % 2: # only two
                    i, j = case['seed'] // 2 % p, (case['seed'] // 2 + 1 + case['key'] % (p - 1)) % p
                    new = list(names)
                    new[i], new[j] = names[j], names[i]
            wrong = frame(xc, Tx, new)
    elif bad == 'x_test':
        wrong = frame(xc, extra)
        require(rejected(lambda: sut.gbart(frame(xc, X), series(yc, y), x_test=wrong, **kw)), 'test predictors %s accepted at construction', wrong.shape)
        return dict(labels=[bad])
    b = sut.gbart(frame(xc, X), series(yc, y), **kw)
    if bad == 'reordered' and isframe:
        # putting columns in the right order would be legitimate
        try:
            got = np.asarray(b.predict(wrong))
        except Exception:
            return dict(labels=[bad, 'rejected'])
        require(np.array_equal(got, np.asarray(b.predict(frame(xc, Tx[[new.index(c) for c in names]])))), 'columns in another order accepted but not reordered')
        return dict(labels=[bad])
    require(rejected(lambda: sut.jax.block_until_ready(b.predict(wrong))), 'trained with %s of %d predictors, prediction accepts %s of shape %s (%s)', xc, p, type(wrong), wrong.shape, bad)
    # the right format is accepted
    ok = np.asarray(b.predict(frame(xc, Tx)))
    require(ok.shape == (case['shape']['ndpost'], Tx.shape[1]), 'predictions have shape %s', ok.shape)
    return dict(labels=[bad, xc])


QMENU = [s for s in MENU if s['quants']] + [R(40, 2, 0, ntree=6, d=5, quants=True, numcut=10, ndpost=10), R(300, 2, 0, ntree=3, d=5, quants=True, numcut=300, ndpost=4)]


def strat_quant(shard, nshards):
    from hypothesis import strategies as st
    return reggen.config(shard, nshards, QMENU, dict(
        prior=st.sampled_from(['lamda', 'sigest']), gaps=st.sampled_from(['exp', 'uniform', 'heavy', 'int', 'close', 'large']), tail=st.integers(-8, 8)))


def given_noise(case, y):
    kw = reggen.settings(dict(case, priors='deep'), y)
    ys = float(np.std(y))
    if case['prior'] == 'lamda':
        kw['lamda'] = float(np.float32(0.1 * ys ** 2))
    else:
        kw['sigest'] = float(np.float32(0.4 * ys))
    return kw


@sub('C24', strategy=strat_quant, quick=12, thorough=150, shards=3, rule='quantile cutpoints and given noise: the predictors are replaced by an arbitrary strictly increasing function of them, with the same fit at the training points bit by bit; non-trivial if some tree has decision nodes')
def monotone(case):
    from harness import sut
    X, y, _ = reggen.data(case)
    rng = ref.rng_of(case['seed'], 11)
    Z = np.empty(X.shape, np.float32)
    for j in range(len(X)):
        u, inv = np.unique(X[j], return_inverse=True)
        gaps = {'exp': rng.exponential(size=len(u)) + 0.01, 'uniform': np.ones(len(u)), 'heavy': np.minimum(1e3, rng.pareto(0.5, size=len(u)) + 0.1),
                'int': rng.integers(1, 10, len(u)).astype(float)}.get(case['gaps'], np.ones(len(u)))
        v = np.cumsum(gaps) - rng.integers(0, 1 + len(u))
        if case['gaps'] == 'close': # neighbouring floats
            v = (1 + np.arange(len(u)) * 2. ** -23) * rng.choice([1, -1])
            v.sort()
        elif case['gaps'] == 'large': # near the maximum
            v = np.linspace(-3e38, 3e38, len(u)) if rng.random() < 0.5 else np.linspace(1.8e38, 3.3e38, len(u))
        elif case['gaps'] != 'int':
            v = v * 2. ** case['tail']
        v = v.astype(np.float32)
        require(np.all(np.diff(v) > 0), 'harness: transformation is not increasing')
        Z[j] = v[inv]
    if case['gaps'] == 'int':
        Z = Z.astype(np.int32)
    kw = given_noise(case, y)
    b1, b2 = sut.gbart(X, y, **kw), sut.gbart(Z, y, **kw)
    a1, a2 = attrs(b1), attrs(b2)
    diff = sut.same_tree(a1, a2)
    require(diff is None, 'an increasing transformation of the predictors changes %s', diff)
    return dict(nontrivial=bool((np.asarray(sut.main_trace(b1)['split_trees']) > 0).any()), labels=[case['gaps'], case['xkind']])


UMENU = [s for s in MENU if not s['quants']] + [R(60, 2, 0, ntree=6, d=6, numcut=255, ndpost=6)]


def strat_affine(shard, nshards):
    from hypothesis import strategies as st
    return reggen.config(shard, nshards, UMENU, dict(
        prior=st.sampled_from(['lamda', 'sigest']), e=st.lists(st.integers(-12, 12), min_size=4, max_size=4), b=st.lists(st.integers(-4000, 4000), min_size=4, max_size=4)))


@sub('C24', strategy=strat_affine, quick=12, thorough=150, shards=3, rule='uniform cutpoints and given noise: the predictors, integers not on the grid, are multiplied by a power of two and shifted exactly, with the same fit bit by bit; non-trivial if some tree has decision nodes')
def affine(case):
    from harness import sut
    _, y, _ = reggen.data(case)
    s = case['shape']
    p, n = s['p'], s['n']
    rng = ref.rng_of(case['seed'], 12)
    M = 1009 # prime, hence integers inside the range are not on the grid
    X = rng.integers(0, M + 1, (p, n)).astype(np.float32)
    for j in range(p):
        i = rng.permutation(n)[:2]
        X[j, i] = 0, M
    Z = np.empty_like(X)
    for j in range(p):
        a = 2. ** case['e'][j % 4]
        Z[j] = a * (X[j] + case['b'][j % 4])
    kw = given_noise(case, y)
    b1, b2 = sut.gbart(X, y, **kw), sut.gbart(Z, y, **kw)
    diff = sut.same_tree(attrs(b1), attrs(b2))
    require(diff is None, 'an affine transformation of the predictors changes %s', diff)
    return dict(nontrivial=bool((np.asarray(sut.main_trace(b1)['split_trees']) > 0).any()), labels=[case['prior']])

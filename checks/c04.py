"""C04: uniform cutpoints form an evenly spaced grid inside the data range."""

import numpy as np

from harness import ref
from harness.core import require, sub

SHAPES = [(1, 2, 2), (2, 5, 3), (3, 10, 1), (1, 1, 4), (2, 30, 256), (2, 30, 257), (1, 10, 255), (4, 7, 11), (1, 20, 1000), (2, 0, 5), (300, 4, 6), (1, 3, 65536), (2, 500, 100), (1, 4, 65537)]
DTYPES = ['float32', 'int32', 'uint8', 'int8', 'int16', 'uint16']


def strat(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from([list(s) for s in SHAPES[shard::nshards]]), dtype=st.sampled_from(DTYPES + ['float32'] * 4),
        kind=st.sampled_from(['normal', 'offset', 'wide', 'tiny', 'constant', 'ends']),
        seed=st.integers(0, 2 ** 32 - 1)))


def make_X(case):
    p, n, _ = case['shape']
    rng = ref.rng_of(case['seed'])
    dt = np.dtype(case['dtype'])
    kind = case['kind']
    if dt.kind == 'f':
        X = rng.standard_normal((p, n))
        if kind == 'offset':
            X = X + 10. ** rng.integers(1, 5, (p, 1))
        elif kind == 'wide':
            X = X * 10. ** rng.integers(-15, 30, (p, 1))
        elif kind == 'tiny':
            X = 1 + X * 1e-4
        elif kind == 'constant':
            X = X[:, :1] + 0 * X if n else X
        elif kind == 'ends' and n:
            X = np.clip(X, -1, 1)
    else:
        info = np.iinfo(dt)
        lim = 2 ** 23
        lo, hi = max(info.min, -lim), min(info.max, lim)
        X = rng.integers(lo, hi + 1, (p, n))
        if kind in ('tiny', 'offset'):
            X = rng.integers(0, 4, (p, n))
        elif kind == 'constant' and n:
            X = X[:, :1] + 0 * X
        elif kind == 'ends':
            X = rng.choice([lo, hi], (p, n))
    return X.astype(dt)


@sub('C04', strategy=strat, quick=60, thorough=900, shards=7,
     rule='a predictors matrix of float or integer type (normal, offset, wide range, constant values) and 1 to 65537 bins; the grid is compared with the definition in double precision; non-trivial if a predictor is not constant and there are at least 2 cutpoints')
def grid(case):
    from harness import sut
    X = make_X(case)
    p, n, bins = case['shape']
    splits, max_split = sut.prepcovars.uniform_splits_from_matrix(sut.jnp.asarray(X), bins)
    m = bins - 1
    require(splits.shape == (p, m) and max_split.shape == (p,), 'shapes %s %s', splits.shape, max_split.shape)
    splits, max_split = np.asarray(splits), np.asarray(max_split)
    require(np.all(max_split.astype(int) == m), 'max_split is %s with %d cutpoints', max_split, m)
    require(max_split.dtype == sut.min_uint(m), 'max_split has type %s with %d cutpoints', max_split.dtype, m)
    require(splits.dtype == np.float32, 'splits have type %s', splits.dtype)
    if n == 0:
        require(np.all(np.isfinite(splits)), 'non-finite cutpoints without data')
        return dict(nontrivial=False, labels=['no data'])
    lo, hi = X.astype(np.float64).min(1), X.astype(np.float64).max(1)
    k = np.arange(1, bins)
    want = lo[:, None] + (hi - lo)[:, None] * k / bins
    tol = 2. ** -20 * np.maximum(np.abs(lo), np.abs(hi))[:, None]
    err = np.abs(splits - want)
    require(np.all(err <= tol), 'the cutpoints differ from the even grid by up to %s', np.max(err, initial=0))
    # never out of the data range
    require(np.all((splits >= lo[:, None] - tol) & (splits <= hi[:, None] + tol)), 'cutpoints out of the data range')
    # sorted, up to roundoff when the cells are smaller than the float spacing
    ulp = 2. ** -21 * np.maximum(np.abs(lo), np.abs(hi))[:, None]
    require(np.all(np.diff(splits.astype(np.float64), axis=1) >= -ulp), 'cutpoints are not sorted')
    return dict(nontrivial=bool(m >= 2 and (lo < hi).any()), labels=[case['dtype'], case['kind']])

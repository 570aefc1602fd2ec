"""C03: quantile cutpoints separate the observed values evenly."""

import numpy as np

from harness import ref
from harness.core import require, sub

SHAPES = [(1, 2, 3), (2, 5, 4), (1, 1, 4), (3, 10, 4), (2, 30, 8), (1, 300, 256), (2, 257, 257), (1, 256, 300), (3, 40, 2), (2, 7, 1), (2, 100, 11),
          (1, 600, 256), (4, 20, 20), (2, 21, 20), (1, 2000, 100), (1, 1000, 1000), (1, 300, 65536), (5, 3, 100), (40, 12, 6), (2, 0, 5), (1, 0, 1)]
DTYPES = ['float32', 'float16', 'int32', 'uint8', 'int8', 'int16', 'uint16', 'uint32']


def strat(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from([list(s) for s in SHAPES[shard::nshards]]), dtype=st.sampled_from(DTYPES + ['float32'] * 3),
        kind=st.sampled_from(['distinct', 'few', 'mixed', 'extreme', 'clumped', 'constant', 'close', 'close', 'large', 'tiny']),
        seed=st.integers(0, 2 ** 32 - 1)))


def make_X(case):
    p, n, _ = case['shape']
    rng = ref.rng_of(case['seed'])
    dt = np.dtype(case['dtype'])
    X = np.empty((p, n), dt)
    for j in range(p):
        kind = case['kind']
        if kind == 'mixed':
            kind = rng.choice(['distinct', 'few', 'clumped', 'constant', 'extreme', 'close', 'large', 'tiny'])
        if dt.kind == 'f':
            info = np.finfo(dt)
            if kind == 'close': # values a few roundoffs apart, such that midpoints are not exact
                x = rng.choice([1., -1.]) * 2. ** rng.integers(-8, 9) * (1 + float(info.eps) * rng.integers(0, rng.choice([2, n + 1, 4 * n + 2]), n))
                if rng.random() < 0.3:
                    x *= rng.choice([1., -1.], n)
                X[j] = x.astype(dt)
                continue
            elif kind == 'large': # such that the sum of two values may overflow
                x = float(info.max) * (1 - rng.integers(0, 2 ** 7, n) / 2 ** 8) * (rng.choice([1., -1.], n) if rng.random() < 0.7 else rng.choice([1., -1.]))
                X[j] = np.clip(x, float(info.min), float(info.max)).astype(dt)
                continue
            elif kind == 'tiny': # such that halves are subnormal
                x = float(info.tiny) * (1 + rng.integers(0, 2 ** 6, n) * 2. ** -rng.integers(3, 7)) * (rng.choice([1., -1.], n) if rng.random() < 0.5 else rng.choice([1., -1.]))
                if rng.random() < 0.5:
                    x = np.where(rng.random(n) < 0.3, rng.choice([0., -1., 1.], n), x)
                X[j] = x.astype(dt)
                continue
            elif kind == 'distinct':
                x = rng.standard_normal(n) * 10. ** rng.integers(-6, 7)
            elif kind == 'few':
                x = rng.choice(rng.standard_normal(rng.integers(1, 12)), n)
            elif kind == 'clumped':
                x = rng.standard_normal(n)
                x[rng.random(n) < 0.7] = 0
            elif kind == 'extreme':
                x = rng.standard_normal(n) * 10. ** rng.integers(-20, 20, n)
            else:
                x = np.full(n, rng.standard_normal())
            # 16 bits of mantissa, such that midpoints are exact
            bits = info.nmant - 7
            mant, ex = np.frexp(x)
            if dt.itemsize == 2: # avoid subnormal numbers and infinities
                ex = np.clip(ex, -5, 14)
                mant = np.where(mant == 0, 0, mant)
            x = np.ldexp(np.round(mant * 2. ** bits) / 2. ** bits, ex)
        else:
            lo, hi = int(np.iinfo(dt).min), int(np.iinfo(dt).max)
            draw = lambda lo, hi, size=None: rng.integers(lo, hi, size, dtype=dt.type, endpoint=True)
            if kind == 'distinct':
                w = min(hi - lo + 1, 3 * n + 5)
                base = int(draw(lo, hi - w + 1))
                x = np.array([base + int(i) for i in rng.permutation(w)[:n]], dt) if w <= 2 ** 20 and w >= n else draw(lo, hi, n)
            elif kind == 'few':
                x = rng.choice(draw(lo, hi, rng.integers(1, 12)), n)
            elif kind == 'clumped':
                x = rng.integers(0, 6, n)
            elif kind in ('extreme', 'close', 'large', 'tiny'):
                x = rng.choice(np.array([lo, hi, lo + 1, hi - 1, 0, 1], dt), n)
            else:
                x = np.full(n, rng.choice(np.array([lo, hi, 3], dt)))
        X[j] = x.astype(dt)
    return X


@sub('C03', strategy=strat, quick=50, thorough=900, shards=8,
     rule='a predictors matrix of 16 or 32 bits float or 8-32 bits integer type, with distinct, repeated, clumped, extreme, constant values, values a few roundoffs apart, values near the maximum or the smallest normal number of the type, and a maximum number of bins from 1 to more than the observations; cutpoints compared with the distinct values in exact arithmetic; non-trivial if some predictor has more gaps than allowed cutpoints or at least 2 cutpoints')
def cutpoints(case):
    from harness import sut
    X = make_X(case)
    p, n, max_bins = case['shape']
    splits, max_split = sut.prepcovars.quantilized_splits_from_matrix(sut.jnp.asarray(X), max_bins)
    m = max(0, min(max_bins, n) - 1)
    require(splits.shape == (p, m) and max_split.shape == (p,), 'shapes %s %s', splits.shape, max_split.shape)
    require(splits.dtype == X.dtype, 'type of splits is %s instead of %s', splits.dtype, X.dtype)
    require(np.issubdtype(max_split.dtype, np.unsignedinteger), 'type of max_split is %s', max_split.dtype)
    binned = np.asarray(sut.prepcovars.bin_predictors(sut.jnp.asarray(X), splits)).astype(int)
    splits, max_split = np.asarray(splits), np.asarray(max_split)
    huge = np.inf if X.dtype.kind == 'f' else np.iinfo(X.dtype).max
    decimated = many = False
    wide = X.dtype.itemsize == 8
    # exact arithmetic
    to = (lambda a: a.astype(np.float64)) if X.dtype.kind == 'f' else (lambda a: a.astype(object if wide else np.int64))
    eps = 2. ** -52 if wide else 2. ** -23 if X.dtype != np.float16 else 2. ** -10
    for j in range(p):
        u = to(np.unique(X[j]))
        k = max(0, len(u) - 1)
        s = int(max_split[j])
        require(s == min(k, m), 'predictor %d has %d distinct values, %d bins allowed, but %d cutpoints', j, k + 1, m + 1, s)
        require(np.all(splits[j, s:] == huge), 'predictor %d: unused slots are %s', j, splits[j, s:])
        c = to(splits[j, :s])
        require(np.all(np.diff(c) > 0), 'predictor %d: cutpoints are not increasing %s', j, c)
        # position of each cutpoint among distinct values: u[i] <= c < u[i + 1]
        pos = np.searchsorted(u, c, 'right') - 1
        require(np.all((pos >= 0) & (pos < k)), 'predictor %d: cutpoints out of the range of the values: %s', j, c)
        if X.dtype.kind == 'f': # with halves to avoid overflow
            c, a, b = c / 2, u[pos] / 4, u[pos + 1] / 4
            tol = (np.abs(a + b) + np.abs(b - a)) * eps + np.finfo(X.dtype).tiny # subnormal midpoints may be rounded
            require(np.all(np.abs(c - (a + b)) <= tol), 'predictor %d: cutpoints are not midpoints: %s', j, splits[j, :s])
        else:
            require(np.all(np.abs(2 * c - (u[pos] + u[pos + 1])) <= 1), 'predictor %d: cutpoints are not midpoints: %s', j, c)
        if n == 0:
            continue
        per_bin = np.bincount(binned[j][np.unique(X[j], return_index=True)[1]], minlength=s + 1)
        require(len(per_bin) == s + 1, 'predictor %d: binned values up to %d with %d cutpoints', j, len(per_bin) - 1, s)
        if k <= m:
            require(np.all(pos == np.arange(k)), 'predictor %d: some gaps do not have a cutpoint', j)
            require(np.all(per_bin == 1), 'predictor %d: distinct values share a bin', j)
            require(np.array_equal(binned[j], np.searchsorted(u, to(X[j]))), 'predictor %d: values are not binned in order', j)
        else:
            decimated = True
            share = (k + 1) / (s + 1)
            err = np.max(np.abs(per_bin - share))
            require(err < 1 + 1e-6 * k, 'predictor %d: %d distinct values in %d bins, with counts from %d to %d', j, k + 1, s + 1, per_bin.min(), per_bin.max())
        many |= s >= 2
    return dict(nontrivial=bool(decimated or many), labels=[case['dtype'], case['kind']] + ['decimated'] * decimated)

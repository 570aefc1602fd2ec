"""C05: binning maps each value to the interval that contains it."""

import numpy as np

from harness import ref
from harness.core import require, sub

SHAPES = [(1, 3, 2), (2, 10, 5), (1, 5, 0), (3, 20, 1), (2, 300, 254), (2, 300, 255), (2, 300, 256), (1, 50, 257), (4, 0, 3), (2, 1, 7), (30, 8, 9), (1, 200, 1000), (1, 40, 65535), (1, 40, 65536), (5, 33, 16)]
DTYPES = [('float32', 'float32'), ('uint8', 'uint8'), ('int8', 'int8'), ('int32', 'int32'), ('uint16', 'uint16'), ('int16', 'int16'), ('int32', 'float32'), ('uint8', 'float32'), ('uint32', 'uint32'),
          ('int16', 'uint8'), ('uint8', 'int16'), ('int16', 'int8'), ('int8', 'int16'), ('float32', 'uint8'), ('float32', 'int16'), ('float32', 'int32'), ('int32', 'uint16')]
METHODS = [None, 'scan', 'scan_unrolled', 'sort', 'compare_all']


def strat(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from([list(s) for s in SHAPES[shard::nshards]]), dtypes=st.sampled_from([list(d) for d in DTYPES] + [['float32', 'float32']] * 3),
        method=st.sampled_from(METHODS), fill=st.sampled_from(['none', 'some', 'all', 'some']), dups=st.booleans(),
        seed=st.integers(0, 2 ** 32 - 1)))


def make(case):
    p, n, m = case['shape']
    rng = ref.rng_of(case['seed'])
    xt, st = map(np.dtype, case['dtypes'])
    splits = np.empty((p, m), st)
    X = np.empty((p, n), xt)
    used = np.empty(p, int)
    for j in range(p):
        if st.kind == 'f':
            huge = np.inf
            s = rng.standard_normal(m).astype(st) * 10. ** rng.integers(-3, 4)
            if xt.kind != 'f':
                s = rng.integers(-1, 300, m) + rng.choice([0., 0.5], m)
        else:
            info = np.iinfo(st)
            huge = info.max
            lim = 2 ** 24 if xt.kind == 'f' else 2 ** 64 # exactly represented by floats
            s = rng.integers(max(info.min, -lim), min(info.max, lim) + 1, m)
        s = s.astype(st)
        if case['dups']:
            s[: m // 2] = s[m // 4: m // 4 + m // 2]
        s = np.sort(s)
        if not case['dups']:
            s = np.unique(s)
        u = {'none': len(s), 'some': int(rng.integers(0, len(s) + 1)), 'all': 0}[case['fill']]
        s = s[:u]
        # the padding value is not a cutpoint, unless infinite precision is not needed
        used[j] = u
        splits[j] = huge
        splits[j, :u] = s
        # values on cutpoints, right above and below, and anywhere
        if xt.kind == 'f':
            pool = [rng.standard_normal(n).astype(xt)]
            for d in (0, -np.inf, np.inf):
                if u:
                    c = rng.choice(s, n).astype(xt)
                    pool.append(np.nextafter(c, xt.type(d)) if d else c)
            pool.append(rng.choice(np.array([np.inf, -np.inf, 0., -0., 3e38, -3e38], xt), n))
        else:
            info = np.iinfo(xt)
            lim = 2 ** 24 if st.kind == 'f' else 2 ** 40
            lo, hi = max(info.min, -lim), min(info.max, lim)
            pool = [rng.integers(lo, hi + 1, n), rng.integers(0, min(hi, 300) + 1, n)]
            if u:
                c = np.floor(rng.choice(s, n).astype(np.float64)).astype(np.int64)
                pool += [np.clip(c + d, lo, hi) for d in (-1, 0, 1)]
            pool.append(rng.choice([lo, hi], n))
        X[j] = np.stack(pool)[rng.integers(len(pool), size=n), np.arange(n)].astype(xt)
    if xt.kind == 'f':
        tiny = np.abs(X) < 1e-37
        X[tiny] = 0
    return X, splits, used


@sub('C05', strategy=strat, quick=90, thorough=1500, shards=8,
     rule='sorted rows of 0 to 65536 cutpoints with padding, and values on, next to, between and beyond them, for float and integer types, with each search method; bins compared with the count of cutpoints strictly below; non-trivial if at least 3 different bins are used')
def bins(case):
    from harness import sut
    X, splits, used = make(case)
    p, n, m = case['shape']
    kw = {} if case['method'] is None else dict(method=case['method'])
    if case['method'] in ('compare_all', 'sort') and m > 10000:
        kw = {}
    got = sut.prepcovars.bin_predictors(sut.jnp.asarray(X), sut.jnp.asarray(splits), **kw)
    require(got.shape == X.shape, 'shape %s', got.shape)
    require(got.dtype == sut.min_uint(m), 'type is %s with rows of %d cutpoints', got.dtype, m)
    got = np.asarray(got).astype(int)
    nb = 0
    for j in range(p):
        to = np.float64 if 'f' in splits.dtype.kind + X.dtype.kind else np.int64
        s, x = splits[j].astype(to), X[j].astype(to)
        want = np.searchsorted(s, x, 'left')
        if not np.array_equal(got[j], want):
            i = np.flatnonzero(got[j] != want)[0]
            require(False, 'value %r is in bin %d, but %d cutpoints are strictly below it (method %s)', X[j, i], got[j, i], want[i], case['method'])
        if splits.dtype.kind == 'f' or len({*case['dtypes']}) == 1: # else values may be above the padding
            require(np.all(got[j] <= used[j]), 'bin %d with %d cutpoints', got[j].max(initial=0), used[j])
        o = np.argsort(x, kind='stable')
        require(np.all(np.diff(got[j][o]) >= 0), 'bins are not monotone')
        nb = max(nb, len(np.unique(got[j])))
    return dict(nontrivial=nb >= 3, labels=[str(case['method']), '/'.join(case['dtypes'])])

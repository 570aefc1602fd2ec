"""C06: predictions apply the sampled trees to the raw predictors."""

import numpy as np

from harness import ref, reggen
from harness.core import require, sub


def raw_forest(X, splits, leaf, var, split):
    """Sum of trees at raw predictors X, in double precision; and sum of |values|."""
    ntree, half = split.shape
    p, n = X.shape
    out = np.zeros(n)
    mag = np.zeros(n)
    for t in range(ntree):
        idx = np.ones(n, np.int64)
        live = np.ones(n, bool)
        while True:
            ok = live & (idx < half)
            c = np.where(ok, split[t][np.where(ok, idx, 0)], 0).astype(np.int64)
            ok &= c > 0
            if not ok.any():
                break
            v = var[t][np.where(ok, idx, 0)].astype(np.int64)
            cut = splits[np.where(ok, v, 0), np.where(ok, c - 1, 0)]
            right = X[np.where(ok, v, 0), np.arange(n)] > cut
            idx = np.where(ok, 2 * idx + right, idx)
            live = ok
        val = leaf[t][idx].astype(np.float64)
        out += val
        mag += np.abs(val)
    return out, mag


@sub('C06', strategy=reggen.config, quick=8, thorough=120, shards=8, rule='a fitted regression (14 shapes of data and settings, uniform or quantile cutpoints) with test points inside, outside of the training range, and equal to training points; non-trivial if some saved tree has decision nodes and predictions are not constant')
def predictions(case):
    from harness import sut
    X, y, T = reggen.data(case)
    b = reggen.fit(case, X, y, T)
    s = case['shape']
    n, p, m, nd = s['n'], s['p'], s['m'], s['ndpost']
    fit = np.asarray(b.yhat_train)
    require(fit.shape == (nd, n), 'yhat_train has shape %s', fit.shape)
    again = np.asarray(b.predict(X))
    require(np.array_equal(fit, again), 'predicting at the training points differs from the training fit by up to %s', np.max(np.abs(fit - again)))
    pred = np.asarray(b.predict(T))
    require(pred.shape == (nd, m), 'predictions have shape %s', pred.shape)
    if m:
        require(np.array_equal(pred, np.asarray(b.yhat_test)), 'yhat_test differs from later predictions')
        mean = np.asarray(b.yhat_test_mean)
        require(mean.shape == (m,), 'yhat_test_mean has shape %s', mean.shape)
        check_mean(mean, pred, 'yhat_test_mean')
    mean = np.asarray(b.yhat_train_mean)
    require(mean.shape == (n,), 'yhat_train_mean has shape %s', mean.shape)
    check_mean(mean, fit, 'yhat_train_mean')

    # other predictions in between, with the same shape
    if m:
        flip = np.asarray(b.predict(T[:, ::-1].copy()))
        require(np.array_equal(flip, pred[:, ::-1]), 'predictions at test points in reverse order differ')
        ind = ref.rng_of(case['seed'], 5).integers(n, size=m)
        require(np.array_equal(np.asarray(b.predict(X[:, ind])), fit[:, ind]), 'predicting at some of the training points differs from the training fit')
        require(np.array_equal(np.asarray(b.predict(T)), pred), 'predictions at the same points change')
        # the same array with other contents
        P = T.copy()
        require(np.array_equal(np.asarray(b.predict(P)), pred), 'predictions at a copy of the points differ')
        P[:] = X[:, ind]
        require(np.array_equal(np.asarray(b.predict(P)), fit[:, ind]), 'predictions at an array changed in place, now with training points, are not the training fit')

    # recomputation from scratch
    trace = sut.main_trace(b)
    splits = np.asarray(sut.private(b, '_splits'))
    leaf, var, split = (np.asarray(trace[k]) for k in ('leaf_trees', 'var_trees', 'split_trees'))
    require(len(leaf) == nd, 'number of saved samples')
    offset, scale = float(b.offset), float(b.scale)
    points = np.concatenate([X, T], axis=1)
    got = np.concatenate([fit, pred], axis=1)
    for i in range(nd):
        want, mag = raw_forest(points, splits, leaf[i], var[i], split[i])
        tol = 1e-5 * (abs(offset) + scale * (mag + 1e-3))
        err = np.abs(got[i] - (offset + scale * want))
        bad = np.flatnonzero(err > tol)
        require(not len(bad), 'sample %d: prediction at %s is %s instead of %s', i, points[:, bad[:1]].ravel()[:5], got[i, bad[:1]], (offset + scale * want)[bad[:1]])
    return dict(nontrivial=bool((split > 0).any() and np.ptp(fit, axis=1).max() > 0 and m), labels=['quants' if s['quants'] else 'uniform', case['xkind'], case['priors']])


def check_mean(mean, samples, name):
    want = samples.astype(np.float64).mean(0)
    tol = 1e-5 * (np.abs(samples).mean(0) + 1e-6)
    require(np.all(np.abs(mean - want) <= tol), '%s is not the average of the samples: off by %s', name, np.max(np.abs(mean - want)))


@sub('C06', strategy=reggen.config, quick=8, thorough=120, shards=8, rule='a fitted regression, and pairs of test points which differ but lie in the same intervals of the cutpoints, including far out of the training range and exactly on cutpoints; non-trivial if some saved tree has decision nodes')
def intervals(case):
    from harness import sut
    X, y, _ = reggen.data(case)
    b = reggen.fit(case, X, y)
    splits = np.asarray(sut.private(b, '_splits'))
    trace = sut.main_trace(b)
    s = case['shape']
    p = s['p']
    rng = ref.rng_of(case['seed'], 3)
    m = 40
    A = np.empty((p, m), np.float32)
    B = np.empty((p, m), np.float32)
    for j in range(p):
        c = np.unique(splits[j].astype(np.float64))
        if np.issubdtype(splits.dtype, np.integer):
            c = c[c < np.iinfo(splits.dtype).max]
        c = c[np.isfinite(c)].astype(np.float32)
        k = rng.integers(0, len(c) + 1, m)
        lo = np.where(k > 0, c[np.maximum(k - 1, 0)] if len(c) else 0, -np.inf)
        hi = np.where(k < len(c), c[np.minimum(k, len(c) - 1)] if len(c) else 0, np.inf)
        span = np.float32(max(1., np.max(np.abs(c), initial=1.)))
        for M in (A, B):
            u = rng.random(m)
            a = np.where(np.isfinite(lo), lo, np.where(np.isfinite(hi), hi, 0) - span * 100)
            z = np.where(np.isfinite(hi), hi, np.where(np.isfinite(lo), lo, 0) + span * 100)
            x = (a + (z - a) * u).astype(np.float32)
            # the upper end belongs to the interval, the lower end does not
            x = np.where(rng.random(m) < 0.3, z, x).astype(np.float32)
            x = np.where(x <= lo, np.nextafter(lo.astype(np.float32), np.float32(np.inf)), x)
            M[j] = np.minimum(x, hi)
    pa, pb = np.asarray(b.predict(A)), np.asarray(b.predict(B))
    bad = np.argwhere(pa != pb)
    require(not len(bad), 'points %s and %s are in the same intervals but have different predictions', A[:, bad[:1, 1]].ravel()[:4] if len(bad) else 0, B[:, bad[:1, 1]].ravel()[:4] if len(bad) else 0)
    return dict(nontrivial=bool((np.asarray(trace['split_trees']) > 0).any()), labels=['quants' if s['quants'] else 'uniform', case['xkind']])

"""C22: degenerate datasets and settings give well-defined results."""

import numpy as np

from harness import ref
from harness.core import require, sub


def strat(shard, nshards):
    from hypothesis import strategies as st
    f = lambda *a: st.sampled_from(a)
    return st.fixed_dictionaries(dict(
        n=f(*[[0, 1, 2], [0, 3, 1], [1, 4, 0], [2, 9, 0], [2, 10, 30], [0, 9, 25], [1, 2, 40], [3, 10, 20]][shard % 8]),
        p=f(1, 2, 5, 30), m=f(3, 1, 0),
        xkind=f('normal', 'constant', 'binary', 'duplicate', 'constant one', 'zeros', 'int'),
        ykind=f('normal', 'two', 'offset', 'linear', 'int'),
        ntree=f(3, 1, 20), d=f(4, 1, 2, 6), numcut=f(10, 0, 1, 255), quants=st.booleans(),
        ndpost=f(5, 0, 1), nskip=f(0, 3), keep=f(1, 2), minpts=f('default', 'default', None, 1), lamda=f(None, None, None, 1., 0.), base=f(.95, .95, .95, 0., 1.), power=f(2., 2., .3, 6.), k=f(2., 2., .05, 200.), seed=st.integers(0, 2 ** 31 - 1)))


def make(case):
    rng = ref.rng_of(case['seed'])
    n, p, m = case['n'], case['p'], case['m']
    kind = case['xkind']
    full = rng.standard_normal((p, n + m)).astype(np.float32)
    if kind == 'constant':
        full[...] = full[:, :1] if n + m else 0
    elif kind == 'constant one':
        full[0] = 1.5
    elif kind == 'binary':
        full = (full > 0).astype(np.float32)
    elif kind == 'duplicate':
        full[...] = full[:1]
        full[:, n // 2:n] = full[:, :n - n // 2]
    elif kind == 'zeros':
        full[...] = 0
    elif kind == 'int':
        full = rng.integers(-3, 4, (p, n + m)).astype(np.int32)
    X, T = full[:, :n].copy(), full[:, n:].copy()
    yk = case['ykind']
    y = rng.standard_normal(n)
    if yk == 'two':
        y = (np.arange(n) % 2).astype(float)
    elif yk == 'offset':
        y = y + 1000
    elif yk == 'linear' and n:
        y = X[0] * 2. + 1
    elif yk == 'int':
        y = rng.integers(-5, 5, n)
    if yk == 'int':
        y = y.astype(np.int32)
    else:
        y = y.astype(np.float32)
    # constant responses are a known finding
    if n >= 2 and not case.get('constant') and np.ptp(y) < 1e-3:
        y = np.arange(n).astype(y.dtype)
    return X, y, T


@sub('C22', strategy=strat, quick=7, thorough=90, shards=8, rule='a regression with few or no datapoints, constant, binary, duplicated predictors, minimal numbers of trees, depth, cutpoints, iterations: it runs and gives finite arrays of the documented shapes; non-trivial if there is at least a degenerate aspect')
def regression(case):
    from harness import sut
    X, y, T = make(case)
    n, p, m = case['n'], case['p'], case['m']
    nd, nskip = case['ndpost'], case['nskip']
    if case.get('constant'):
        y = np.full(n, case['constant'], np.float32)
    initkw = {} if case['minpts'] == 'default' else dict(min_points_per_leaf=case['minpts'])
    kw = dict(lamda=case['lamda']) if case['lamda'] is not None else {}
    for name in ('base', 'power', 'k'):
        if name in case:
            kw[name] = case[name]
    if kw.get('lamda') == 0 and n <= 10:
        kw['lamda'] = 1e-3 # with no noise and no datapoints, the noise is zero
    b = sut.gbart(X, y, x_test=T, ntree=case['ntree'], maxdepth=case['d'], numcut=case['numcut'], usequants=case['quants'],
                  ndpost=nd, nskip=nskip, keepevery=case['keep'], seed=case['seed'], printevery=10 ** 6, initkw=initkw, **kw)
    fit = None
    for name, shape, empty in (
        ('yhat_train', (nd, n), False), ('yhat_train_mean', (n,), nd == 0), ('yhat_test', (nd, m), False), ('yhat_test_mean', (m,), nd == 0),
        ('sigma', (nd,), False), ('first_sigma', (nskip,), False), ('offset', (), False), ('scale', (), False), ('lamda', (), False)):
        x = np.asarray(getattr(b, name), np.float64)
        require(x.shape == shape, '%s has shape %s instead of %s', name, x.shape, shape)
        if not empty: # averages of no samples are not defined
            require(np.all(np.isfinite(x)), '%s is %s', name, x.ravel()[:5])
        if 'sigma' in name:
            require(np.all(x > 0), '%s is %s', name, x[:5])
    require(float(b.lamda) >= 0 and float(b.scale) > 0, 'lamda %s scale %s', b.lamda, b.scale)
    require((b.sigest is None) == (case['lamda'] is not None), 'sigest is %s', b.sigest)
    if b.sigest is not None:
        require(np.shape(b.sigest) == () and np.isfinite(float(b.sigest)) and float(b.sigest) >= 0, 'sigest is %s', b.sigest)
    if n == 0:
        require(float(b.offset) == 0, 'offset is %s without datapoints', b.offset)
    if n < 2:
        require(float(b.scale) == 1, 'scale is %s with %d datapoints', b.scale, n)
        require(b.sigest is None or float(b.sigest) == 1, 'sigest is %s with %d datapoints', b.sigest, n)
    else:
        Y = y.astype(np.float64)
        want = np.ptp(Y) / (2 * case.get('k', 2.))
        require(abs(float(b.scale) - want) <= 1e-4 * want + 1e-6 * np.max(np.abs(Y)), 'scale is %s instead of %s', b.scale, want)
        require(abs(float(b.offset) - Y.mean()) <= 1e-5 * np.max(np.abs(Y)), 'offset is %s instead of %s', b.offset, Y.mean())
        if b.sigest is not None and n <= p:
            want = Y.std()
            require(abs(float(b.sigest) - want) <= 1e-3 * want, 'sigest is %s instead of %s', b.sigest, want)
    require(b.ntree == case['ntree'] and b.maxdepth == case['d'], 'ntree, maxdepth')
    pred = np.asarray(b.predict(T))
    require(np.array_equal(pred, np.asarray(b.yhat_test)), 'predictions')

    # no split is possible
    fit = np.asarray(b.yhat_train)
    why = []
    if n < 10 and case['minpts'] == 'default':
        why.append('few datapoints')
    if case['d'] == 1:
        why.append('maximum depth 1')
    if case.get('base') == 0:
        why.append('splits forbidden by the prior')
    if case['numcut'] == 0:
        why.append('no cutpoints')
    if n and np.all(X == X[:, :1]) and (case['quants'] or case['minpts'] == 'default'):
        why.append('constant predictors')
    if why:
        both = np.concatenate([fit, pred], axis=1)
        if both.shape[1]:
            require(np.array_equal(both, np.broadcast_to(both[:, :1], both.shape)), 'predictions of a sample differ although no split is possible (%s)', ', '.join(why))
        trace = sut.main_trace(b)
        require(not np.asarray(trace['split_trees']).any(), 'there are decision nodes although no split is possible (%s)', ', '.join(why))
        for k in ('grow_acc_count', 'prune_acc_count'):
            require(not np.asarray(trace[k]).any(), '%s is not zero although no split is possible', k)
    degenerate = n <= 10 or case['xkind'] not in ('normal', 'int') or case['d'] <= 2 or case['numcut'] <= 1 or case['ntree'] == 1 or nd == 0 or nskip == 0 or kw.get('base') in (0, 1) or kw.get('lamda') == 0
    return dict(nontrivial=bool(degenerate), labels=[f'n={n}', case['xkind'], f'd={case["d"]}', f'numcut={case["numcut"]}', f'ndpost={nd}', 'quants' if case['quants'] else 'uniform'] + ['no split'] * bool(why) + [f'base={kw.get("base")}'] * (kw.get('base') in (0, 1)))

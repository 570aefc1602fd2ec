"""C25: the whole regression can be compiled."""

import functools

import numpy as np

from harness import reggen
from harness.core import require, sub

R = reggen.shape
MENU = [
    R(30, 2, 9, ntree=4, d=4),
    R(25, 3, 12, ntree=3, quants=True, numcut=255, ndpost=5),
    R(10, 20, 5, ntree=3, d=4, nskip=0),
    R(60, 4, 20, ntree=10, d=6, keep=2, numcut=100),
    R(0, 2, 3, ntree=3, d=3),
    R(1, 1, 3, ntree=3, d=3),
    R(40, 2, 10, ntree=6, d=2, quants=True, numcut=5, ndpost=12),
    R(35, 3, 10, ntree=5, d=5, numcut=1, ndpost=1, nskip=20),
]
FIELDS = ('offset', 'scale', 'lamda', 'sigest', 'sigma', 'first_sigma', 'yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean')


def strat(shard, nshards):
    from hypothesis import strategies as st
    return reggen.config(shard, nshards, MENU, dict(priors=st.sampled_from(['default', 'deep', 'all']), traced=st.sampled_from(['data', 'params', 'key'])))


@functools.cache
def compiled(sut, static, traced):
    """Jitted function that runs the regression."""
    kw = dict(static)

    def f(X, y, T, key, params):
        b = sut.gbart(X, y, x_test=T, seed=key, **kw, **params)
        out = {k: getattr(b, k) for k in FIELDS}
        out['again'] = b.predict(T)
        return out
    return sut.jax.jit(f)


def outputs(b, T):
    out = {k: getattr(b, k) for k in FIELDS}
    out['again'] = b.predict(T)
    return out


def difference(a, b, y):
    """Description of the difference beyond roundoff, or None."""
    mag = float(np.max(np.abs(y), initial=1))
    for k in FIELDS + ('again',):
        if a[k] is None or b[k] is None:
            if a[k] is not b[k]:
                return f'{k} is None in one case'
            continue
        u, v = np.asarray(a[k], np.float64), np.asarray(b[k], np.float64)
        if u.shape != v.shape:
            return f'{k} has shapes {u.shape} and {v.shape}'
        tol = 2e-3 * max(mag if 'yhat' in k else 0, np.max(np.abs(u), initial=0)) + 1e-6
        if not np.all(np.abs(u - v) <= tol):
            return f'{k} differs by {np.max(np.abs(u - v))}'
    return None


@sub('C25', strategy=strat, quick=5, thorough=60, shards=8, rule='datasets and settings, run directly and inside a compiled function of data, random key and numerical parameters; results agree up to roundoff (a difference must show up with two keys out of three, because roundoff can flip a decision); non-trivial if there is some datapoint')
def jit(case):
    from harness import sut
    X, y, T = reggen.data(case) if case['shape']['n'] else (np.zeros((case['shape']['p'], 0), np.float32), np.zeros(0, np.float32), reggen.make_X(np.random.default_rng(case['seed']), 'normal', case['shape']['p'], case['shape']['m']))
    kw = reggen.settings(case, y)
    kw.pop('seed')
    params = {}
    if case['traced'] == 'params': # numerical parameters as traced values too
        for k in ('lamda', 'offset', 'k'):
            if k in kw:
                params[k] = kw.pop(k)
    f = compiled(sut, tuple(sorted(kw.items())), case['traced'])

    def run(i):
        key = sut.key_of(case['key'], i)
        a = outputs(sut.gbart(X, y, x_test=T, seed=key, **kw, **params), T)
        b = f(X, y, T, key, params)
        return difference(a, b, y)
    msgs = [run(0)]
    if msgs[0]:
        msgs += [run(1), run(2)]
    bad = [m for m in msgs if m]
    require(len(bad) < 2, 'the compiled regression differs: %s', '; '.join(bad))
    return dict(nontrivial=case['shape']['n'] > 0, labels=[case['priors'], case['traced']])

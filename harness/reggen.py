"""
Generation of datasets and settings for the regression interface, shared by the
checks on `gbart`. As in `mcmcgen`, `shape` determines what is compiled.
"""

import numpy as np

from . import ref


def shape(n, p, m, ntree=5, d=5, numcut=10, ndpost=8, nskip=5, keep=1, quants=False):
    return dict(n=n, p=p, m=m, ntree=ntree, d=d, numcut=numcut, ndpost=ndpost, nskip=nskip, keep=keep, quants=quants)


MENU = [
    shape(30, 2, 9),
    shape(25, 3, 12, quants=True),
    shape(40, 1, 30, ntree=1, numcut=1, ndpost=12),
    shape(60, 4, 10, ntree=20, d=6, numcut=255, keep=3),
    shape(60, 3, 25, ntree=8, numcut=255, quants=True, nskip=0),
    shape(20, 30, 5, ntree=4, d=3, numcut=7),
    shape(100, 2, 50, ntree=12, d=7, numcut=300, ndpost=5, nskip=20),
    shape(80, 5, 1, ntree=3, d=4, numcut=3, quants=True, keep=2),
    shape(300, 2, 10, ntree=4, numcut=256, quants=True, ndpost=5),
    shape(50, 260, 3, ntree=6, d=4, numcut=20, ndpost=5),
    shape(35, 3, 0, ntree=2, d=2, numcut=5),
    shape(12, 2, 6, ntree=5, numcut=50, ndpost=20),
    shape(200, 6, 40, ntree=50, d=6, numcut=100, ndpost=4, quants=True),
    shape(45, 2, 17, ntree=3, d=8, numcut=12, ndpost=10, nskip=40),
]


def config(shard, nshards, menu=None, extra=None):
    from hypothesis import strategies as st
    menu = MENU if menu is None else menu
    mine = menu[shard::nshards] or menu
    d = dict(
        shape=st.sampled_from(mine),
        xkind=st.sampled_from(['normal', 'uniform', 'grid', 'skewed', 'offset', 'int']),
        ykind=st.sampled_from(['smooth', 'step', 'noise', 'offset', 'big']),
        priors=st.sampled_from(['default', 'default', 'deep', 'lamda', 'sigest', 'offset', 'all']),
        seed=st.integers(0, 2 ** 32 - 1),
        key=st.integers(0, 2 ** 31 - 1),
    )
    d.update(extra or {})
    return st.fixed_dictionaries(d)


def make_X(rng, kind, p, n):
    if kind == 'normal':
        return rng.standard_normal((p, n)).astype(np.float32)
    if kind == 'uniform':
        return rng.random((p, n)).astype(np.float32)
    if kind == 'grid': # repeated values
        return (rng.integers(-3, 5, (p, n)) / 4).astype(np.float32)
    if kind == 'skewed':
        return np.exp(2 * rng.standard_normal((p, n))).astype(np.float32)
    if kind == 'offset':
        return (rng.standard_normal((p, n)) + 100 * rng.standard_normal((p, 1))).astype(np.float32)
    if kind == 'int':
        return rng.integers(-20, 40, (p, n)).astype(np.int32)
    raise ValueError(kind)


def make_y(rng, kind, X):
    p, n = X.shape
    Z = np.argsort(np.argsort(X, axis=1), axis=1) / max(1, n)
    v, w = rng.integers(p, size=2)
    noise = rng.standard_normal(n)
    if kind == 'noise':
        y = noise
    elif kind == 'step':
        y = 2. * (Z[v] > 0.5) - (Z[w] > 0.25) + 0.1 * noise
    else:
        y = np.sin(6 * Z[v]) + Z[w] + 0.3 * noise
    if kind == 'offset':
        y = y + 50
    elif kind == 'big':
        y = 1000 * y
    return y.astype(np.float32)


def data(case):
    """Return X, y, X_test."""
    s = case['shape']
    rng = ref.rng_of(case['seed'])
    X = make_X(rng, case['xkind'], s['p'], s['n'])
    y = make_y(rng, case['ykind'], X)
    # test points: same distribution, out of range, copies of training points
    T = make_X(rng, case['xkind'], s['p'], s['m'])
    if s['m'] and s['n']:
        far = rng.random((s['p'], s['m'])) < 0.15
        T = np.where(far, T * 1000, T).astype(T.dtype)
        copy = rng.random((s['p'], s['m'])) < 0.3
        T = np.where(copy, X[:, rng.integers(s['n'], size=s['m'])], T).astype(X.dtype)
    return X, y, T


def settings(case, y=None):
    """Keyword arguments of gbart."""
    s = case['shape']
    rng = ref.rng_of(case['seed'], 7)
    kw = dict(ntree=s['ntree'], maxdepth=s['d'], numcut=s['numcut'], ndpost=s['ndpost'], nskip=s['nskip'],
              keepevery=s['keep'], usequants=s['quants'], seed=case['key'], printevery=10 ** 6)
    pr = case['priors']
    ys = float(np.std(y)) if y is not None and len(y) > 1 else 1.
    if pr in ('deep', 'all', 'sigest'):
        kw.update(base=0.99, power=float(rng.choice([0.25, 0.5, 1])))
    if pr in ('lamda', 'all'):
        kw.update(lamda=float(np.float32(ys ** 2 * rng.choice([0.01, 0.1, 1]))))
    if pr == 'sigest':
        kw.update(sigest=float(np.float32(ys * rng.choice([0.1, 0.5, 2]))), sigdf=int(rng.choice([1, 3, 10])), sigquant=float(rng.choice([0.5, 0.75, 0.99])))
    if pr in ('offset', 'all'):
        kw.update(offset=float(np.float32(rng.standard_normal() * ys)), k=float(rng.choice([0.5, 1, 3])))
    return kw


def fit(case, X=None, y=None, T=None, **over):
    from . import sut
    if X is None:
        X, y, T = data(case)
    kw = settings(case, np.asarray(y))
    if T is not None and T.shape[1]:
        kw['x_test'] = T
    kw.update(over)
    return sut.gbart(X, y, **kw)

"""C17: the regression is equivariant to affine changes of the responses."""

import numpy as np

from harness import ref, reggen
from harness.core import require, sub

R = reggen.shape
MENU = [
    R(32, 2, 9, ntree=4, d=4),
    R(64, 3, 12, ntree=8, quants=True, numcut=255),
    R(16, 20, 5, ntree=3, d=4),
    R(128, 2, 20, ntree=20, d=6, keep=2),
    R(32, 5, 6, ntree=2, d=3, quants=True, ndpost=4, nskip=10),
]


def strat(shard, nshards, **extra):
    from hypothesis import strategies as st
    return reggen.config(shard, nshards, MENU, dict(extra, k=st.integers(-64, 64)))


def strat_exact(shard, nshards):
    from hypothesis import strategies as st
    return strat(shard, nshards, e=st.one_of(st.integers(-10, 10), st.integers(-40, 40)))


def strat_general(shard, nshards):
    from hypothesis import strategies as st
    return strat(shard, nshards, a=st.sampled_from([3., 0.1, 1.7, 1000., 1e-3, 1., 12345., 1e-8, 3e8]))


def dyadic(y):
    y = (y - np.mean(y)) / (np.std(y) + 1e-6)
    return np.clip(np.round(y * 64) / 64, -8, 8).astype(np.float32)


def run(sut, case, X, y, T, kw):
    if T.shape[1]:
        kw = dict(kw, x_test=T)
    return sut.gbart(X, y, **kw)


def pair(sut, case, a, b, key, exact):
    """Fit the original and transformed data; return both."""
    X, y, T = reggen.data(case)
    y = dyadic(y)
    y2 = (a * y.astype(np.float64) + b).astype(np.float32)
    kw = reggen.settings(case, y)
    kw['seed'] = key
    for name in ('lamda', 'sigest', 'offset'):
        if name in kw:
            kw[name] = float(np.round(kw[name] * 256) / 256) or 1 / 256
    kw2 = dict(kw)
    if 'lamda' in kw:
        kw2['lamda'] = kw['lamda'] * a * a
    if 'sigest' in kw:
        kw2['sigest'] = kw['sigest'] * a
    if 'offset' in kw:
        kw2['offset'] = a * kw['offset'] + b
    return y, run(sut, case, X, y, T, kw), run(sut, case, X, y2, T, kw2)


def diff(name, got, want, tol):
    got, want = np.asarray(got, np.float64), np.asarray(want, np.float64)
    if got.shape != want.shape:
        return f'{name} has shape {got.shape} instead of {want.shape}'
    err = np.max(np.abs(got - want), initial=0)
    return f'{name} differs from the transformed original by {err} (tolerance {tol}; {got.ravel()[:3]} vs {want.ravel()[:3]})' if not err <= tol else None


def settings_diff(b1, b2, a, b, rel):
    scale = float(b1.scale)
    off = float(b1.offset)
    out = [
        diff('offset', b2.offset, a * off + b, 4 * rel * (a * (abs(off) + scale) + abs(b))),
        diff('scale', b2.scale, a * scale, 4 * rel * (a * scale + abs(b))),
        diff('lamda', b2.lamda, a * a * float(b1.lamda), 100 * rel * a * a * float(b1.lamda) * (1 + abs(b) / a / scale)),
    ]
    if b1.sigest is None or b2.sigest is None:
        out.append(None if b1.sigest is None and b2.sigest is None else 'sigest is set in only one case')
    else:
        out.append(diff('sigest', b2.sigest, a * float(b1.sigest), 100 * rel * a * float(b1.sigest) * (1 + abs(b) / a / scale)))
    return [x for x in out if x]


def samples_diff(b1, b2, a, b, rel):
    out = []
    scale = float(b1.scale)
    for name in ('sigma', 'first_sigma'):
        s1 = np.asarray(getattr(b1, name), np.float64)
        out.append(diff(name, getattr(b2, name), a * s1, rel * a * np.max(s1, initial=0)))
    for name in ('yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean'):
        if hasattr(b1, name):
            f1 = np.asarray(getattr(b1, name), np.float64)
            out.append(diff(name, getattr(b2, name), a * f1 + b, (rel + 1e-6) * (a * (np.max(np.abs(f1), initial=0) + abs(float(b1.offset)) + scale) + abs(b))))
    return [x for x in out if x]


@sub('C17', strategy=strat_exact, quick=12, thorough=150, shards=5, rule='responses on a dyadic grid with a power of two of datapoints, scaled by a power of two and shifted by a multiple of it, such that standardization is exact: sampled trees and noise are the same bit by bit; non-trivial if the transformation is not the identity and some tree has decision nodes')
def exact(case):
    from harness import sut
    a = 2. ** case['e']
    b = a * case['k']
    y, b1, b2 = pair(sut, case, a, b, case['key'], True)
    msgs = settings_diff(b1, b2, a, b, 2. ** -23)
    require(not msgs, '%s', '; '.join(msgs))
    t1, t2 = sut.main_trace(b1), sut.main_trace(b2)
    for k in ('var_trees', 'split_trees', 'leaf_trees', 'sigma2'):
        require(np.array_equal(np.asarray(t1[k]), np.asarray(t2[k])), 'sampled %s changed with a=%s b=%s', k, a, b)
    msgs = samples_diff(b1, b2, a, b, 1e-6)
    require(not msgs, '%s', '; '.join(msgs))
    return dict(nontrivial=bool((a, b) != (1, 0) and (np.asarray(t1['split_trees']) > 0).any()), labels=[case['priors'], 'shift' if b else 'no shift'])


@sub('C17', strategy=strat_general, quick=12, thorough=150, shards=5, rule='arbitrary shift and positive scale: settings, fitted values, predictions and noise follow the transformation up to roundoff (on at least one of three seeds, because roundoff could flip a decision); every case is non-trivial')
def general(case):
    from harness import sut
    a = case['a']
    b = a * case['k'] / 3
    msgs = None
    for i in range(3):
        y, b1, b2 = pair(sut, case, a, b, case['key'] ^ (i << 20), False)
        s = settings_diff(b1, b2, a, b, 2. ** -20)
        require(not s, '%s', '; '.join(s))
        m = samples_diff(b1, b2, a, b, 3e-3)
        if not m:
            msgs = None
            break
        msgs = msgs or m
    require(msgs is None, '%s', '; '.join(msgs or []))
    return dict(labels=[case['priors'], 'shift' if b else 'no shift'])

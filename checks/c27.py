"""C27: summaries of a regression agree with its saved samples."""

import contextlib
import io

import numpy as np

from harness import ref, reggen
from harness.core import require, sub

R = reggen.shape
MENU = [
    R(30, 2, 9, ntree=4, d=4),
    R(40, 3, 6, ntree=7, numcut=255, quants=True, keep=2),
    R(60, 2, 5, ntree=20, d=6, numcut=100, ndpost=5, nskip=0),
    R(25, 1, 8, ntree=1, d=3, ndpost=20, nskip=1),
    R(300, 4, 3, ntree=3, d=7, numcut=300, ndpost=6, nskip=10),
    R(20, 260, 2, ntree=5, d=5, ndpost=6),
    R(35, 3, 0, ntree=300, d=2, numcut=5, ndpost=4),
    R(12, 2, 4, ntree=3, d=1, ndpost=4),
]
NAMES = ('_avg_acc', '_avg_prop', '_avg_move', '_sigma_harmonic_mean', '_compare_resid', '_depth_distr', '_points_per_leaf_distr', '_check_trees', '_tree_goes_bad', '_show_tree')


def strat(shard, nshards):
    from hypothesis import strategies as st
    return reggen.config(shard, nshards, MENU, dict(minpts=st.sampled_from([1, 5, 5, None, 100]), faults=st.integers(0, 6)))


def near(got, want, rel, name):
    got, want = np.asarray(got, np.float64), np.asarray(want, np.float64)
    require(got.shape == want.shape, '%s has shape %s instead of %s', name, got.shape, want.shape)
    with np.errstate(all='ignore'):
        ok = (np.abs(got - want) <= rel * (1 + np.abs(want))) | (np.isnan(got) & np.isnan(want))
    require(np.all(ok), '%s is %s instead of %s', name, got, want)


def method(b, name):
    try:
        return getattr(b, name)
    except AttributeError:
        return None


@sub('C27', strategy=strat, quick=8, thorough=80, shards=8, rule='a regression; documented attributes and built-in diagnostics recomputed from the saved samples (with some of them corrupted for the diagnostics of malformed trees); non-trivial if some tree is split and some move accepted')
def summaries(case):
    from harness import sut
    s = case['shape']
    X, y, T = reggen.data(case)
    initkw = dict(min_points_per_leaf=case['minpts'])
    b = reggen.fit(case, X, y, T, initkw=initkw)
    kw = reggen.settings(case, y)
    trace = {k: np.asarray(v) for k, v in sut.main_trace(b).items() if not isinstance(v, dict)}
    state = sut.final_state(b)
    scale, offset = float(b.scale), float(b.offset)
    nd, nt = s['ndpost'], s['ntree']

    # attributes
    near(np.asarray(b.sigma) / scale, np.sqrt(trace['sigma2'].astype(np.float64)), 1e-5, 'sigma / scale')
    near(np.asarray(b.yhat_train_mean) / scale, np.asarray(b.yhat_train, np.float64).mean(0) / scale, 1e-4 * (1 + abs(offset) / scale), 'yhat_train_mean / scale')
    if s['m']:
        near(np.asarray(b.yhat_test_mean) / scale, np.asarray(b.yhat_test, np.float64).mean(0) / scale, 1e-4 * (1 + np.max(np.abs(b.yhat_test), initial=0) / scale), 'yhat_test_mean / scale')
    else:
        require(not hasattr(b, 'yhat_test') and not hasattr(b, 'yhat_test_mean'), 'yhat_test without test points')
    require(b.ntree == nt and b.maxdepth == s['d'], 'ntree, maxdepth: %s, %s', b.ntree, b.maxdepth)

    # moves
    g, p, ga, pa = (trace[k].astype(np.int64).sum() for k in ('grow_prop_count', 'prune_prop_count', 'grow_acc_count', 'prune_acc_count'))
    with np.errstate(all='ignore'):
        for name, want in (
            ('_avg_acc', (np.float64(ga) / g, np.float64(pa) / p)),
            ('_avg_prop', (np.float64(g) / (g + p), np.float64(p) / (g + p))),
            ('_avg_move', (np.float64(ga) / (g + p), np.float64(pa) / (g + p)))):
            f = method(b, name)
            if f is None:
                continue
            got = f()
            for what, have, right, count in zip(('grow', 'prune'), got, want, (g, p)):
                if name == '_avg_move' and count == 0:
                    continue # 0/0 * 0
                near(have, right, 1e-5, f'{name}, {what}')

    # noise
    f = method(b, '_sigma_harmonic_mean')
    resid = np.asarray(state['resid'], np.float64)
    if f is not None:
        near(np.asarray(f(prior=True)) ** 2 / float(b.lamda), 1, 1e-4, 'squared prior harmonic mean of the noise over lamda')
        df = kw.get('sigdf', 3)
        want = (df * float(b.lamda) + np.sum((resid * scale) ** 2)) / (df + s['n'])
        near(np.asarray(f()) ** 2 / want, 1, 1e-3, 'squared harmonic mean of the noise over the expected one')
    f = method(b, '_compare_resid')
    if f is not None:
        r1, r2 = (np.asarray(r, np.float64) for r in f())
        fit = np.zeros(s['n'])
        for j in range(nt):
            ind = ref.traverse(np.asarray(state['X']), state['var_trees'][j], state['split_trees'][j])
            fit += np.asarray(state['leaf_trees'][j], np.float64)[ind]
        z = (y.astype(np.float64) - offset) / scale
        tol = 1e-4 * (1 + np.max(np.abs(z), initial=0))
        near(r1, resid, 1e-6, 'running residuals')
        near(r2, z - fit, tol, 'recomputed residuals')

    # trees
    depth = np.zeros((nd, s['d']), int)
    points = np.zeros((nd, s['n'] + 1), int)
    Xb = np.asarray(state['X'])
    for i in range(nd):
        for j in range(nt):
            split = trace['split_trees'][i, j]
            leaves = ref.walk(split)[1]
            depth[i, max(map(ref.depth_of, leaves))] += 1
            c = np.bincount(ref.traverse(Xb, trace['var_trees'][i, j], split), minlength=2 * len(split))
            for k in leaves:
                points[i, c[k]] += 1
    for name, want in (('_depth_distr', depth), ('_points_per_leaf_distr', points)):
        f = method(b, name)
        if f is not None:
            got = np.asarray(f())
            require(np.array_equal(got, want), '%s: %s instead of %s', name, got, want)
    f, h = method(b, '_check_trees'), method(b, '_tree_goes_bad')
    for g in (f, h):
        if g is not None:
            err = np.asarray(g())
            require(err.shape == (nd, nt) and not err.any(), 'errors in the trees: %s', err)
    # corrupt some, in runs of iterations
    if case['faults'] and (f is not None or h is not None):
        rng = ref.rng_of(case['seed'], 3)
        leaf, split = trace['leaf_trees'].copy(), trace['split_trees'].copy()
        bits = np.zeros((nd, nt), int)
        for _ in range(case['faults']):
            i0 = rng.integers(nd)
            i1 = rng.integers(i0, nd) + 1
            j = rng.integers(nt)
            if rng.random() < 0.5:
                leaf[i0:i1, j, 1] = np.nan
                bits[i0:i1, j] |= 8
            else:
                split[i0:i1, j, 0] = 1
                bits[i0:i1, j] |= 4
        old = b._main_trace
        b._main_trace = dict(old, leaf_trees=sut.jnp.asarray(leaf), split_trees=sut.jnp.asarray(split))
        try:
            if f is not None:
                got = np.asarray(f())
                require(np.array_equal(got != 0, bits != 0), 'trees with errors: %s instead of %s', np.argwhere(got), np.argwhere(bits))
            if h is not None:
                got = np.asarray(h())
                bad = bits != 0
                want = bad & ~np.concatenate([np.zeros((1, nt), bool), bad[:-1]])
                require(got.shape == want.shape and np.array_equal(got.astype(bool), want), 'iterations when trees go bad: %s instead of %s', np.argwhere(got), np.argwhere(want))
        finally:
            b._main_trace = old
    f = method(b, '_show_tree')
    if f is not None:
        rng = ref.rng_of(case['seed'], 4)
        used = np.argwhere(trace['split_trees'].any(-1))
        i, j = used[rng.integers(len(used))] if len(used) else (rng.integers(nd), rng.integers(nt))
        for full in (False, True):
            out = [io.StringIO(), io.StringIO()]
            with contextlib.redirect_stdout(out[0]):
                f(int(i), int(j), print_all=full)
            with contextlib.redirect_stdout(out[1]):
                sut.debug.print_tree(*(sut.jnp.asarray(trace[k][i, j]) for k in ('leaf_trees', 'var_trees', 'split_trees')), print_all=full)
            require(out[0].getvalue() == out[1].getvalue(), 'tree %d of sample %d is shown as %r instead of %r', j, i, out[0].getvalue(), out[1].getvalue())
    missing = [n for n in NAMES if method(b, n) is None]
    return dict(nontrivial=bool(trace['split_trees'].any() and ga + pa), labels=[f'no {n}' for n in missing] + ['corrupted trees'] * bool(case['faults']) + [f'depth {s["d"]}'])

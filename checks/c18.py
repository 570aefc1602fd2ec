"""C18: priors are set from data and arguments as documented."""

import numpy as np
from scipy import special, stats

from harness import ref, reggen
from harness.core import Skip, require, sub

R = reggen.shape
MENU = [
    R(30, 2, 3, ntree=2, d=4, ndpost=2, nskip=0),
    R(40, 5, 3, ntree=3, d=6, ndpost=1, nskip=1, quants=True, numcut=255),
    R(20, 30, 3, ntree=2, d=3, ndpost=1, nskip=0, numcut=7),
    R(6, 4, 2, ntree=2, d=2, ndpost=1, nskip=0),
    R(7, 7, 2, ntree=2, d=8, ndpost=1, nskip=0, quants=True, numcut=3),
    R(200, 12, 3, ntree=4, d=5, ndpost=1, nskip=0, numcut=300),
    R(3, 1, 3, ntree=1, d=1, ndpost=1, nskip=0),
    R(64, 40, 3, ntree=1, d=10, ndpost=1, nskip=0),
    R(9, 8, 3, ntree=1, d=6, ndpost=1, nskip=0),
    R(2, 3, 2, ntree=2, d=3, ndpost=1, nskip=0),
    R(2, 1, 2, ntree=1, d=3, ndpost=1, nskip=0, quants=True, numcut=4),
]


def strat(shard, nshards):
    from hypothesis import strategies as st
    f = lambda *a: st.sampled_from(a)
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from(MENU[shard::nshards]),
        xkind=f('normal', 'uniform', 'grid', 'skewed', 'int'),
        xextra=f('', 'constant', 'duplicate', 'both'),
        ykind=f('smooth', 'step', 'noise', 'offset', 'big', 'int'),
        k=f(None, 0.5, 1, 2, 3.7, 0.05, 20), sigdf=f(None, 1, 2, 3, 10, 4.5, 0.5, 80), sigquant=f(None, 0.5, 0.75, 0.99, 0.1, 0.01),
        sigest=f(None, None, None, 0.5, 3, 0., 1e-3, 100), lamda=f(None, None, None, None, 0.25, 7., 0., 1e-5, 1e4), offset=f(None, None, 0., -3.5, 1e3),
        base=f(None, 0.5, 0.99, 0.2, 0.01, 1.), power=f(None, 0, 1, 0.5, 3, 10, 20.), seed=st.integers(0, 2 ** 32 - 1), key=st.just(0)))


def make(case):
    s = case['shape']
    rng = ref.rng_of(case['seed'])
    X = reggen.make_X(rng, case['xkind'], s['p'], s['n'])
    if case['xextra'] in ('constant', 'both'):
        X[0] = X[0, 0]
    if case['xextra'] in ('duplicate', 'both') and s['p'] > 2:
        X[-1] = X[1]
    if case['ykind'] == 'int':
        y = rng.integers(-5, 6, s['n']).astype(np.int32)
        y[:2] = 0, 1
    else:
        y = reggen.make_y(rng, case['ykind'], X)
    return X, y


@sub('C18', strategy=strat, quick=22, thorough=250, shards=8, rule='datasets with more and less datapoints than predictors, duplicated and constant predictors, integer and float responses, and explicit or default prior arguments; settings compared with double precision numpy/scipy computations of their definitions; non-trivial if lamda is not given or other arguments are set')
def settings(case):
    from harness import sut
    X, y = make(case)
    s = case['shape']
    n, p = s['n'], s['p']
    given = {k: case[k] for k in ('k', 'sigdf', 'sigquant', 'sigest', 'lamda', 'offset', 'base', 'power') if case[k] is not None}
    b = sut.gbart(X, y, ntree=s['ntree'], maxdepth=s['d'], numcut=s['numcut'], ndpost=s['ndpost'], nskip=s['nskip'],
                  usequants=s['quants'], printevery=10 ** 6, **given)
    arg = dict(k=2, sigdf=3, sigquant=0.9, base=0.95, power=2, sigest=None, lamda=None, offset=None)
    arg.update(given)
    Y = y.astype(np.float64)
    mag = np.max(np.abs(Y))

    offset = Y.mean() if arg['offset'] is None else arg['offset']
    near(b.offset, offset, 1e-6 * mag, 'offset')
    scale = (Y.max() - Y.min()) / (2 * arg['k'])
    near(b.scale, scale, 1e-5 * scale, 'scale')
    require(b.ntree == s['ntree'] and b.maxdepth == s['d'], 'ntree, maxdepth')

    if arg['lamda'] is not None:
        near(b.lamda, arg['lamda'], 1e-6 * arg['lamda'], 'lamda')
        require(b.sigest is None, 'sigest is %s with lamda given', b.sigest)
    else:
        floor = 0
        if arg['sigest'] is not None:
            sigest2 = arg['sigest'] ** 2
        elif n <= p:
            sigest2 = np.var(Y - offset)
        else:
            Xc = X.astype(np.float64)
            Xc = (Xc - Xc.mean(1, keepdims=True)).T
            sv = np.linalg.svd(Xc, compute_uv=False)
            rel = sv / max(sv[0], 1e-300)
            if np.any(np.ptp(X, axis=1)) and np.any((rel > 1e-8) & (rel < 3e-4)):
                raise Skip('ill-conditioned predictors')
            varied = np.ptp(X, axis=1) > 0
            rank = int(np.sum(rel > 1e-5)) if varied.any() else 0
            if not varied.any():
                # residual roundoff in centering could count as one
                floor = np.var(Y) * n / (n - 1) / (n - 1)
                Xc[...] = 0
            yc = Y - Y.mean()
            coef = np.linalg.lstsq(Xc, yc, rcond=1e-5)[0]
            sigest2 = np.sum((yc - Xc @ coef) ** 2) / (n - rank)
            floor = max(floor, 1e-8 * np.var(Y))
        require(b.sigest is not None and np.isfinite(float(b.sigest)) and np.shape(b.sigest) == (), 'sigest is %s', b.sigest)
        near(float(b.sigest) ** 2, sigest2, 2e-3 * sigest2 + floor, 'sigest ** 2')
        lamda = float(b.lamda)
        used = float(b.sigest) ** 2
        if used > 1e-12 * np.var(Y):
            # probability of sigma2 < sigest2 under the prior
            prob = special.gammaincc(arg['sigdf'] / 2, arg['sigdf'] * lamda / 2 / used)
            near(prob, arg['sigquant'], 1e-3, 'prior probability of a variance below sigest ** 2')
    lamda = float(b.lamda)

    state = sut.final_state(b)
    require(abs(float(state['sigma2_alpha']) - arg['sigdf'] / 2) < 1e-5, 'sigma2_alpha is %s', state['sigma2_alpha'])
    near(float(state['sigma2_beta']) / float(state['sigma2_alpha']) * scale ** 2, lamda, 1e-4 * lamda, 'harmonic mean of the variance prior')
    pnt = np.asarray(state['p_nonterminal'], np.float64)
    d = np.arange(s['d'])
    want = arg['base'] / (1. + d) ** arg['power']
    want[-1] = 0
    require(pnt.shape == want.shape and np.allclose(pnt, want, rtol=1e-5, atol=0), 'p_nonterminal is %s instead of %s', pnt, want)
    z = np.asarray(state['y'], np.float64)
    near(z * scale + offset, Y, 1e-5 * mag + 1e-6 * abs(offset), 'standardized responses')
    require(int(np.asarray(state['min_points_per_leaf'])) == 5, 'min_points_per_leaf is %s', state['min_points_per_leaf'])
    require(state['leaf_trees'].shape[-2:] == (s['ntree'], 2 ** s['d']), 'shape of the forest')
    ms = np.asarray(state['max_split']).astype(int)
    Xb = np.asarray(state['X']).astype(int)
    require(Xb.shape == X.shape, 'shape of the binned predictors')
    for j in range(p):
        u = np.unique(X[j])
        if s['quants']:
            require(ms[j] == min(len(u) - 1, s['numcut']), 'predictor %d has %d cutpoints with %d distinct values', j, ms[j], len(u))
            if len(u) - 1 <= s['numcut']:
                require(np.array_equal(Xb[j], np.searchsorted(u, X[j])), 'bins of predictor %d', j)
        else:
            require(ms[j] == s['numcut'], 'predictor %d has %d cutpoints', j, ms[j])
            if len(u) > 1:
                lo, hi = float(u[0]), float(u[-1])
                pos = (X[j].astype(np.float64) - lo) / (hi - lo) * (s['numcut'] + 1)
                err = 1e-3 + 1e-5 * max(abs(lo), abs(hi)) / (hi - lo) * (s['numcut'] + 1)
                ok = (Xb[j] >= np.ceil(pos - err) - 1) & (Xb[j] <= np.ceil(pos + err) - 1) | (Xb[j] == 0) & (pos <= err)
                require(ok.all(), 'bins of predictor %d: %s at positions %s', j, Xb[j][~ok][:4], pos[~ok][:4])
        require(np.all(np.diff(Xb[j][np.argsort(X[j], kind='stable')]) >= 0), 'bins of predictor %d are not monotone', j)
    labels = ['n<=p' if n <= p else 'n>p', 'lamda' if arg['lamda'] is not None else 'sigest' if arg['sigest'] is not None else 'data', case['xextra'] or 'plain']
    return dict(nontrivial=bool(arg['lamda'] is None or given), labels=labels)


def near(a, b, tol, name):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    require(np.shape(a) == np.shape(b) and np.all(np.abs(a - b) <= tol), '%s is %s instead of %s', name, a, b)


def strat_prior(shard, nshards):
    from hypothesis import strategies as st
    f = lambda *a: st.sampled_from(a)
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from([[2, 5, 3], [1, 1, 4], [3, 20, 2]][shard::nshards]),
        sigdf=f(1, 3, 10), sigquant=f(0.9, 0.5, 0.75), sigest=f(None, 0.5, 3.), lamda=f(None, None, 2., 0.1), offset=f(None, 4., -30.),
        base=f(0.95, 0.5), power=f(2, 0.5), seed=st.integers(0, 2 ** 31 - 1)))


@sub('C18', strategy=strat_prior, quick=8, thorough=60, shards=3, opt=1, rule='regressions without data, which sample the prior: error variances follow the scaled inverse chi squared distribution, with probability sigquant of being below sigest squared, and the latent function at a point is normal with mean offset and variance one; every case is non-trivial')
def prior_draws(case):
    from harness import stat, sut
    p, ntree, d = case['shape']
    kw = dict(sigdf=case['sigdf'], sigquant=case['sigquant'], base=case['base'], power=case['power'])
    for k in ('sigest', 'lamda', 'offset'):
        if case[k] is not None:
            kw[k] = case[k]
    rng = ref.rng_of(case['seed'])
    T = rng.standard_normal((p, 3)).astype(np.float32)

    def run(i):
        b = sut.gbart(np.zeros((p, 0), np.float32), np.zeros(0, np.float32), x_test=T, ntree=ntree, maxdepth=d, ndpost=3000, nskip=0,
                      printevery=10 ** 6, seed=(case['seed'] + 12345 * i) % 2 ** 31, **kw)
        offset = case['offset'] or 0.
        near(b.offset, offset, 1e-5, 'offset')
        near(b.scale, 1, 1e-6, 'scale')
        if case['lamda'] is None:
            sigest = 1. if case['sigest'] is None else case['sigest']
            near(b.sigest, sigest, 1e-5, 'sigest')
            x = stats.chi2.ppf(1 - case['sigquant'], case['sigdf'])
            lamda = sigest ** 2 * x / case['sigdf']
        else:
            lamda = case['lamda']
        near(b.lamda, lamda, 1e-3 * lamda, 'lamda')
        sig2 = np.asarray(b.sigma, np.float64) ** 2
        pv = {}
        u = stats.chi2.cdf(case['sigdf'] * lamda / sig2, case['sigdf'])
        pv['sigma'] = stats.kstest(u, 'uniform').pvalue
        f = np.asarray(b.yhat_test, np.float64)[:, 0] - offset
        pv['yhat'] = stats.kstest(f, 'norm').pvalue
        pv['yhat lag'] = stats.pearsonr(f[1:], f[:-1]).pvalue
        return pv

    # a pvalue is confirmed with two independent runs
    low = run(0)
    for i in (1, 2):
        bad = [k for k, v in low.items() if v < 1e-4]
        if not bad:
            break
        again = run(i)
        low = {k: max(low[k], again[k]) for k in bad}
    bad = [k for k, v in low.items() if v < 1e-4]
    require(not bad, 'prior draws do not follow the prior: pvalues %s', low)
    return dict(labels=['lamda' if case['lamda'] is not None else 'sigest' if case['sigest'] is not None else 'default'])


# the arguments that do not set priors, with their documented defaults
DEFAULTS = dict(usequants=False, maxdepth=6, ntree=200, numcut=255, ndpost=1000, nskip=100, keepevery=1, printevery=100, seed=0)
SMALL = dict(usequants=True, maxdepth=4, ntree=5, numcut=20, ndpost=4, nskip=3, keepevery=2, printevery=2, seed=7)


def strat_defaults(shard, nshards):
    from hypothesis import strategies as st
    names = sorted(DEFAULTS)
    # each argument is left out by some shard
    first = names[shard % len(names)]
    return st.fixed_dictionaries(dict(
        omit=st.lists(st.sampled_from(names), max_size=3, unique=True).map(lambda l: sorted({first, *l})),
        p=st.just(2 + shard % 2), key=st.integers(0, 2 ** 32 - 1)))


@sub('C18', strategy=strat_defaults, quick=2, thorough=20, shards=9, rule='the same regression with some arguments left out, and with those arguments set to their documented defaults, gives the same results and log; non-trivial')
def defaults(case):
    import contextlib
    import io
    from harness import sut
    rng = ref.rng_of(case['key'])
    X = rng.standard_normal((case['p'], 60)).astype(np.float32)
    y = (X[0] + (X[1] > 0) + 0.3 * rng.standard_normal(60)).astype(np.float32)
    T = rng.standard_normal((case['p'], 9)).astype(np.float32)

    def run(kw):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            b = sut.gbart(X, y, x_test=T, **kw)
            sut.jax.effects_barrier()
        return b, sorted(buf.getvalue().splitlines())

    left = {k: v for k, v in SMALL.items() if k not in case['omit']}
    b, log = run(left)
    ref_b, ref_log = run({**left, **{k: DEFAULTS[k] for k in case['omit']}})
    for name in ('yhat_train', 'yhat_test', 'yhat_train_mean', 'yhat_test_mean', 'sigma', 'first_sigma', 'offset', 'scale', 'lamda', 'sigest', 'ntree', 'maxdepth'):
        x, r = np.asarray(getattr(b, name)), np.asarray(getattr(ref_b, name))
        require(x.shape == r.shape and np.array_equal(x, r), 'leaving out %s is not equivalent to setting the documented defaults: %s differs', case['omit'], name)
    require(log == ref_log, 'leaving out %s is not equivalent to setting the documented defaults: the log differs', case['omit'])
    return dict(nontrivial=True, labels=case['omit'])

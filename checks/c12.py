"""C12: the MCMC leaves the BART posterior invariant."""

import functools
import math

import numpy as np

from harness import ref, stat
from harness.core import require, sub

VARYING = ('leaf_trees', 'var_trees', 'split_trees', 'leaf_indices', 'affluence_trees', 'resid', 'y', 'sigma2')


def cfg(n, ms, d, minpts=None, pnt='deep', rb='auto', cb='auto', m=1):
    return dict(n=n, ms=list(ms), d=d, minpts=minpts, pnt=pnt, rb=rb, cb=cb, m=m)


def make_pnt(kind, d):
    return {'deep': [0.9, 0.8, 0.7, 0.6], 'flat': [0.5] * 4, 'default': [0.95, 0.95 / 4, 0.95 / 9, 0.95 / 16],
            'increasing': [0.4, 0.6, 0.8, 0.9], 'zerotail': [0.7, 0., 0., 0.], 'rootone': [1., 0.6, 0.4, 0.3]}[kind][:d - 1]


@functools.cache
def _enumerate(ms, d, pnt, X, minpts):
    ms = np.array(ms)
    n = len(X) // len(ms)
    X = np.frombuffer(X, np.uint8).reshape(len(ms), n)
    p_nt = np.append(np.float32(make_pnt(pnt, d)).astype(float), 0.)
    return ref.enumerate_trees(d, ms, p_nt, X, minpts)


def setup(case):
    """Data, enumerated trees, template state."""
    from harness import sut
    s = case['shape']
    rng = ref.rng_of(case['seed'])
    ms = np.array(s['ms'])
    p, n, d = len(ms), s['n'], s['d']
    X = np.stack([rng.integers(0, m + 1, n) for m in ms]).astype(np.uint8)
    if case.get('dup') and p > 1:
        X[1] = np.minimum(X[0], ms[1])
    trees = _enumerate(tuple(s['ms']), d, s['pnt'], X.tobytes(), s['minpts'])
    y = case['yscale'] * rng.standard_normal(n)
    if n:
        y = y + 1.5 * case['yscale'] * (X[rng.integers(p)] > 0)
    y = y.astype(np.float32)
    state = sut.mcmcstep.init(
        X=sut.jnp.asarray(X), y=sut.jnp.asarray(y), max_split=sut.jnp.asarray(ms.astype(np.uint8)), num_trees=s['m'],
        p_nonterminal=np.float32(make_pnt(s['pnt'], d)), sigma2_alpha=case['alpha'], sigma2_beta=case['alpha'] * case['sigma2'],
        min_points_per_leaf=s['minpts'], resid_batch_size=s['rb'], count_batch_size=s['cb'])
    half = 2 ** (d - 1)
    var = np.array([t[0] for t in trees]).reshape(-1, half)
    split = np.array([t[1] for t in trees]).reshape(-1, half)
    w = np.array([t[2] for t in trees])
    idx = np.array([ref.traverse(X, v, c) for v, c in zip(var, split)]).reshape(len(trees), n)
    counts = np.array([np.bincount(i, minlength=2 * half) for i in idx])
    # only the 3 fields identify a tree; mask unused variables
    code = {encode(v, c): i for i, (v, c) in enumerate(zip(var, split))}
    return dict(X=X, y=y, state=state, var=var, split=split, w=w / w.sum(), idx=idx, counts=counts, code=code, half=half)


def encode(v, c):
    used = c != 0
    return (np.where(used, v, 0).astype(np.int64).tobytes(), c.astype(np.int64).tobytes())


@functools.cache
def _run(nsteps, trees_only):
    from harness import sut

    def one(varying, template, key):
        state = dict(template, **varying)

        def loop(state, key):
            f = sut.mcmcstep.sample_trees if trees_only else sut.mcmcstep.step
            return f(state, key), None
        state, _ = sut.jax.lax.scan(loop, state, sut.random.split(key, nsteps))
        return {k: state[k] for k in VARYING if state[k] is not None}
    return sut.jax.jit(sut.jax.vmap(one, in_axes=(0, None, 0)))


def categories(setup_, var, split):
    """Index of each sampled tree in the enumeration; violation if not in it."""
    split = split.astype(np.int64)
    var = np.where(split != 0, var.astype(np.int64), 0)
    rows = np.concatenate([var, split], 1)
    u, inv = np.unique(rows, axis=0, return_inverse=True)
    h = setup_['half']
    out = np.empty(len(u), int)
    for i, r in enumerate(u):
        k = setup_['code'].get(encode(r[:h], r[h:]))
        require(k is not None, 'sampled a tree with zero prior probability: var=%s split=%s', r[:h].tolist(), r[h:].tolist())
        out[i] = k
    return out[inv.ravel()]


def tree_tests(S, cat, post):
    """P-values of the distribution of trees and of some of their features."""
    split, var = S['split'], S['var']
    counts = np.bincount(cat, minlength=len(post))
    p = {'trees': ref.chi2_pvalue(counts, post)}
    nleaf = (split != 0).sum(1)
    depth = np.array([max([ref.depth_of(i) for i in ref.walk(c)[1]]) for c in split])
    for name, f in (('number of leaves', nleaf), ('depth', depth), ('root predictor', np.where(split[:, -1 if split.shape[1] < 2 else 1] != 0, var[:, -1 if split.shape[1] < 2 else 1], -1)),
                    ('root cutpoint', split[:, -1 if split.shape[1] < 2 else 1])):
        u, inv = np.unique(f, return_inverse=True)
        p[name] = ref.chi2_pvalue(np.bincount(inv, weights=counts, minlength=len(u)), np.bincount(inv, weights=post, minlength=len(u)))
    return p


FIXED = [
    cfg(6, (4, 2), 2), cfg(12, (2, 1), 3), cfg(20, (1, 2), 3, minpts=3), cfg(8, (2, 0, 1), 3),
    cfg(0, (1, 2), 3, pnt='flat'), cfg(15, (3,), 4, minpts=2, pnt='increasing'), cfg(10, (1, 1, 1), 4, pnt='default'), cfg(24, (5, 2), 3, minpts=1, rb=None, cb=5),
    cfg(9, (1, 2), 4), cfg(30, (4, 1), 3, minpts=4, rb=3), cfg(0, (0, 2), 4), cfg(30, (2, 2), 3, minpts=7, pnt='flat'),
    cfg(5, (3,), 4, pnt='flat'), cfg(14, (2, 1), 4, minpts=3, pnt='increasing'), cfg(11, (2, 2), 3, minpts=2), cfg(18, (9,), 3, minpts=5, pnt='default'),
    cfg(12, (5, 3), 4, minpts=2, pnt='zerotail'), cfg(10, (3, 2), 3, pnt='rootone'), cfg(60, (12, 12), 2, minpts=15, cb=None), cfg(16, (2, 1), 4, minpts=0, pnt='rootone'),
]


def strat_fixed(shard, nshards, menu=FIXED):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from(menu[shard::nshards]), yscale=st.sampled_from([1., 0.3, 2.]), sigma2=st.sampled_from([0.5, 2., 0.15]),
        alpha=st.sampled_from([1.5, 3.]), dup=st.booleans(), seed=st.integers(0, 2 ** 32 - 1), key=st.integers(0, 2 ** 32 - 1)))


@sub('C12', strategy=strat_fixed, quick=6, thorough=80, shards=8, opt=2, shrink=False,
     rule='a dataset with one tree and fixed noise variance for which all the trees are enumerated with their exact posterior probabilities; 20000 chains started from exact posterior draws are run for 25 steps and the frequencies of trees (and of their size, depth, root rule) are tested with chi-squared, to be confirmed on other keys; non-trivial if more than 3 trees have relevant probability')
def posterior(case):
    from harness import sut
    jnp = sut.jnp
    S = setup(case)
    sigma2 = case['sigma2']
    y = S['y'].astype(float)
    mu2 = 1.
    ll = np.zeros(len(S['w']))
    for i in range(len(ll)):
        sums = np.bincount(S['idx'][i], weights=y, minlength=2 * S['half'])
        for leaf in ref.walk(S['split'][i])[1]:
            ll[i] += ref.log_lik_leaf(S['counts'][i][leaf], sums[leaf], sigma2, mu2)
    post = S['w'] * np.exp(ll - ll.max())
    post /= post.sum()
    N = 20000

    def run(i):
        rng = ref.rng_of(case['seed'], case['key'], i)
        c = rng.choice(len(post), N, p=post)
        varying = start(S, c[:, None], np.zeros((N, 1, 2 * S['half'])), np.broadcast_to(y, (N, len(y))), np.full(N, sigma2), case['shape']['minpts'])
        keys = sut.random.split(sut.key_of(case['key'], i), N)
        out = sut.npz(_run(25, True)(varying, S['state'], keys))
        cat = categories(S, out['var_trees'][:, 0], out['split_trees'][:, 0])
        return tree_tests(S, cat, post)

    bad = stat.confirm(run)
    require(not bad, 'the distribution of trees after 25 steps is not the posterior, p-values %s', bad)
    return dict(nontrivial=(post > 0.002).sum() > 3, labels=[f'{len(str(len(post)))} digits number of trees'], note=f'{len(post)} trees, {(post > 0.002).sum()} with probability > 0.002')


def start(S, cat, leaf, y, sigma2, minpts):
    """Batch of states of the package. cat: (N, m), leaf: (N, m, 2 ** d), y: (N, n)."""
    from harness import sut
    jnp = sut.jnp
    t = S['state']
    idx = S['idx'][cat] # N, m, n
    fit = np.take_along_axis(leaf, idx, 2).sum(1)
    out = dict(
        leaf_trees=leaf, var_trees=S['var'][cat], split_trees=S['split'][cat], leaf_indices=idx,
        resid=y - fit, y=y, sigma2=sigma2)
    out = {k: jnp.asarray(v).astype(t[k].dtype) for k, v in out.items()}
    if minpts is not None:
        out['affluence_trees'] = jnp.asarray((S['counts'][:, :S['half']] >= 2 * minpts)[cat])
    return out


GEWEKE = [
    cfg(6, (2, 1), 3, m=2), cfg(12, (2, 1), 3, m=3, minpts=3), cfg(0, (1, 2), 3, m=2), cfg(10, (1, 0, 1), 4, m=2, pnt='default'),
    cfg(15, (4,), 3, m=2, minpts=2, rb=4, cb=3), cfg(8, (1, 1), 3, m=5, pnt='flat'), cfg(3, (3,), 3, m=1, pnt='increasing'), cfg(9, (2, 2), 2, m=4, minpts=1, rb=None),
]


def strat_geweke(shard, nshards):
    return strat_fixed(shard, nshards, GEWEKE)


@sub('C12', strategy=strat_geweke, quick=4, thorough=50, shards=8, opt=2, shrink=False,
     rule='forests, leaf values and noise variances drawn from the prior and data simulated from them, 20000 times; after 12 full steps the trees, leaf values, noise variances and residuals must still follow the prior (chi-squared, Kolmogorov-Smirnov, correlation tests, to be confirmed on other keys); non-trivial if there is data')
def joint(case):
    from scipy import stats
    from harness import sut
    S = setup(case)
    s = case['shape']
    n, m, half = s['n'], s['m'], S['half']
    alpha, beta = case['alpha'], case['alpha'] * case['sigma2']
    N = 20000

    def run(i):
        rng = ref.rng_of(case['seed'], case['key'], i)
        cat = rng.choice(len(S['w']), (N, m), p=S['w'])
        leaf = rng.standard_normal((N, m, 2 * half)) / math.sqrt(m)
        sigma2 = beta / rng.gamma(alpha, size=N)
        fit = np.take_along_axis(leaf, S['idx'][cat], 2).sum(1)
        y = fit + np.sqrt(sigma2)[:, None] * rng.standard_normal((N, n))
        varying = start(S, cat, leaf, y, sigma2, s['minpts'])
        y = np.asarray(varying['y'], float)
        out = sut.npz(_run(12, False)(varying, S['state'], sut.random.split(sut.key_of(case['key'], i), N)))
        p = {}
        newleaf = out['leaf_trees'].astype(float)
        fit = np.zeros((N, n))
        s2 = out['sigma2'].astype(float)
        cats = []
        for t in range(m):
            c = categories(S, out['var_trees'][:, t], out['split_trees'][:, t])
            cats.append(c)
            for k, v in tree_tests(S, c, S['w']).items():
                p[f'tree {t}: {k}'] = v
            fit += np.take_along_axis(newleaf[:, t], S['idx'][c], 1)
            # a leaf of the tree, e.g., the first one
            first = np.array([ref.walk(x)[1][0] for x in S['split']])[c]
            last = np.array([ref.walk(x)[1][-1] for x in S['split']])[c]
            z = newleaf[np.arange(N), t, first] * math.sqrt(m)
            z2 = newleaf[np.arange(N), t, last] * math.sqrt(m)
            for k, v in stat.normal_tests(z).items():
                p[f'tree {t}: first leaf {k}'] = v
            sel = first != last
            if sel.sum() > 100:
                for k, v in stat.normal_tests(z2[sel]).items():
                    p[f'tree {t}: last leaf of split trees {k}'] = v
                p[f'tree {t}: correlation of leaves'] = stat.corr_test(z[sel], z2[sel])
                p[f'tree {t}: dependence of leaves variance'] = var_test(z[sel], z2[sel])
            nl = (S['split'] != 0).sum(1)[c]
            for v in np.unique(nl):
                if (nl == v).sum() > 500:
                    p[f'tree {t}: leaf given {v} decision nodes'] = stats.kstest(z[nl == v], 'norm').pvalue
        for t in range(1, m):
            a = (S['split'] != 0).sum(1)[cats[t - 1]]
            b = (S['split'] != 0).sum(1)[cats[t]]
            p[f'trees {t - 1}, {t}: correlation of sizes'] = pearson(a, b)
        for k, v in stat.uniform_tests(stats.gamma.sf(beta / s2, alpha)).items():
            p[f'noise variance: {k}'] = v
        if n:
            r = (y - fit) / np.sqrt(s2)[:, None]
            err = np.max(np.abs(y - fit - out['resid']) / (1 + np.abs(y)))
            require(err < 1e-2, 'residuals are not responses minus predictions, error %g', err)
            for k, v in stat.uniform_tests(stats.chi2.cdf((r * r).sum(1), n)).items():
                p[f'standardized residuals: sum of squares {k}'] = v
            for k, v in stat.normal_tests(r.sum(1) / math.sqrt(n)).items():
                p[f'standardized residuals: sum {k}'] = v
            p['correlation of residuals and predictions'] = pearson(r[:, 0], fit[:, 0])
            p['correlation of sum of squares of residuals and noise variance'] = pearson(np.log((r * r).sum(1)), np.log(s2))
        return p

    bad = stat.confirm(run)
    require(not bad, 'the joint distribution of parameters and data is not preserved, p-values %s', bad)
    return dict(nontrivial=n > 0, labels=[f'm={m}', f'minpts={s["minpts"]}'])


def pearson(a, b):
    from scipy import stats
    if np.std(a) == 0 or np.std(b) == 0:
        return 1.
    return stats.spearmanr(a, b).pvalue


def var_test(a, b):
    from scipy import stats
    return stats.spearmanr(a * a, b * b).pvalue

"""C14: saved traces are the requested subsample of one chain."""

import numpy as np

from harness import mcmcgen, ref, reggen
from harness.core import require, sub

BURNIN = {'sigma2', 'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'}
MAIN = BURNIN | {'leaf_trees', 'var_trees', 'split_trees'}

S = mcmcgen.shape
MENU = [
    S(20, 2, 4, 3, 'small', minpts=2),
    S(15, 3, 3, 2, 'small'),
    S(40, 2, 5, 6, 'mid', minpts=5, ratios=True),
    S(30, 2, 3, 2, 'u16', ratios=True),
    S(25, 1, 6, 4, 'mid', minpts=1, small='f16'),
    S(30, 4, 4, 3, 'zeros', minpts=1),
    S(0, 2, 3, 2, 'small'),
    S(10, 2, 2, 1, 'bin'),
]


def strat(shard, nshards):
    from hypothesis import strategies as st
    return mcmcgen.config(shard, nshards, MENU, dict(
        n_burn=st.sampled_from([3, 0, 1, 7, 12]), n_save=st.sampled_from([2, 5, 8, 4, 1, 0]),
        n_skip=st.sampled_from([2, 1, 3, 5])))


CALLS = []


def record(*, bart, burnin, i_total, i_skip, n_burn, n_save, n_skip):
    import jax
    import jax.numpy as jnp

    def cb(*args):
        CALLS.append([np.array(a) for a in args])
    jax.debug.callback(cb, burnin, i_total, i_skip, n_burn, n_save, n_skip, bart['sigma2'], bart['grow_acc_count'], bart['prune_acc_count'],
                       bart['split_trees'].astype(jnp.int32).sum(), bart['resid'])


def quiet(**kw):
    pass


def differs(a, b):
    """Whether two arrays differ by more than roundoff."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return True
    if a.dtype.kind in 'fV' or a.dtype.name == 'bfloat16':
        a, b = a.astype(np.float64), b.astype(np.float64)
        return not np.allclose(a, b, rtol=2e-2 if a.dtype == np.float16 else 1e-3, atol=1e-3, equal_nan=True)
    return not np.array_equal(a, b)


def compare(sut, state, case, key):
    """Return description of the difference with the unthinned chain, or None."""
    nb, ns, nk = case['n_burn'], case['n_save'], case['n_skip']
    N = nb + ns * nk
    run = sut.mcmcloop.run_mcmc
    final, burn, main = run(state, nb, ns, nk, quiet, key)
    if N:
        ref_final, _, full = run(state, 0, N, 1, quiet, key)
    else:
        ref_final, full = state, main
    final, burn, main, ref_final, full = map(sut.npz, (final, burn, main, ref_final, full))
    for k in BURNIN:
        if differs(burn[k], full[k][:nb]):
            return f'burn-in trace of {k} is not the head of the chain'
    sel = slice(nb + nk - 1, None, nk)
    for k in MAIN:
        if differs(main[k], full[k][sel] if ns else full[k][:0]):
            return f'main trace of {k} is not every {nk}-th state after burn-in'
    if 'ratios' in main:
        for k in main['ratios']:
            if differs(main['ratios'][k], full['ratios'][k][sel] if ns else full['ratios'][k][:0]):
                return f'main trace of ratios {k}'
            if differs(burn['ratios'][k], full['ratios'][k][:nb]):
                return f'burn-in trace of ratios {k}'
    for k in ('sigma2', 'leaf_trees', 'var_trees', 'split_trees', 'resid', 'leaf_indices', 'grow_acc_count', 'prune_acc_count', 'grow_prop_count'):
        if differs(final[k], ref_final[k]):
            return f'final {k} differs'
        if ns and k in MAIN and differs(final[k], main[k][-1]):
            return f'final {k} is not the last of the trace'
        if not N and differs(final[k], np.asarray(state[k])):
            return f'final {k} is not the initial one without iterations'
    return None


@sub('C14', strategy=strat, quick=5, thorough=60, shards=8, rule='an initial or generated MCMC state, number of burn-in, saved, thinned iterations including 0; the traces and final state are compared with the chain run with the same key without burn-in and thinning; non-trivial if there are at least 2 iterations')
def chain(case):
    from harness import sut
    state = mcmcgen.start_state(case)
    nb, ns, nk = case['n_burn'], case['n_save'], case['n_skip']
    key = sut.key_of(case['key'])
    _, burn, main = sut.mcmcloop.run_mcmc(state, nb, ns, nk, quiet, key)
    require(set(burn) - {'ratios'} == BURNIN, 'fields of the burn-in trace: %s', sorted(burn))
    require(set(main) - {'ratios'} == MAIN, 'fields of the main trace: %s', sorted(main))
    for name, trace, length in (('burn-in', burn, nb), ('main', main, ns)):
        require(('ratios' in trace) == ('ratios' in state), '%s trace of ratios', name)
        for k, v in trace.items():
            if k == 'ratios':
                continue
            want = (length,) + state[k].shape
            require(v.shape == want, '%s trace of %s has shape %s instead of %s', name, k, v.shape, want)
            require(v.dtype == state[k].dtype, '%s trace of %s has type %s instead of %s', name, k, v.dtype, state[k].dtype)
    # the two computations are compiled separately: a difference due to
    # roundoff can flip a decision on one key, but not on any key
    msg = None
    for i in range(3):
        msg = compare(sut, state, case, key if i == 0 else sut.key_of(case['key'], i))
        if msg is None:
            break
    require(msg is None, '%s (n_burn=%d n_save=%d n_skip=%d)', msg, nb, ns, nk)
    return dict(nontrivial=nb + ns * nk >= 2, labels=[f'burn {min(nb, 2)} save {min(ns, 2)} skip {min(nk, 2)}'])


@sub('C14', strategy=strat, quick=5, thorough=60, shards=8, rule='as above, with a recording callback: exactly one call per iteration, with the right counters, flags, and a state which agrees with the traces; non-trivial if there are at least 2 iterations')
def callback(case):
    from harness import sut
    state = mcmcgen.start_state(case)
    nb, ns, nk = case['n_burn'], case['n_save'], case['n_skip']
    N = nb + ns * nk
    CALLS.clear()
    final, burn, main = sut.mcmcloop.run_mcmc(state, nb, ns, nk, record, sut.key_of(case['key']))
    sut.jax.block_until_ready(final['sigma2'])
    sut.jax.effects_barrier()
    calls = sorted(CALLS, key=lambda c: int(c[1]))
    require(len(calls) == N, '%d calls with %d iterations', len(calls), N)
    require([int(c[1]) for c in calls] == list(range(N)), 'i_total goes through %s', [int(c[1]) for c in calls])
    sigma2 = {i: np.asarray(burn['sigma2'])[i] for i in range(nb)}
    accs = {i: np.asarray(burn['grow_acc_count'])[i] for i in range(nb)}
    for i in range(ns):
        sigma2[nb + (i + 1) * nk - 1] = np.asarray(main['sigma2'])[i]
        accs[nb + (i + 1) * nk - 1] = np.asarray(main['grow_acc_count'])[i]
    for i, (burnin, i_total, i_skip, b, s, k, sig, ga, pa, ssum, resid) in enumerate(calls):
        require(bool(burnin) == (i < nb), 'burn-in flag is %s at iteration %d with %d burn-in iterations', bool(burnin), i, nb)
        require((int(b), int(s), int(k)) == (nb, ns, nk), 'arguments passed to the callback: %s %s %s', b, s, k)
        want = i if i < nb else (i - nb) % nk
        require(int(i_skip) == want, 'i_skip is %d instead of %d at iteration %d', i_skip, want, i)
        if i in sigma2:
            require(float(sig) == float(sigma2[i]), 'state passed to the callback at iteration %d does not match the trace', i)
            require(int(ga) == int(accs[i]), 'counters passed to the callback at iteration %d do not match the trace', i)
        if i == N - 1:
            require(float(sig) == float(final['sigma2']) and np.array_equal(resid, np.asarray(final['resid'])), 'last callback does not get the final state')
    return dict(nontrivial=N >= 2, labels=[f'burn {min(nb, 2)} save {min(ns, 2)} skip {min(nk, 2)}'])


NODATA = [S(0, 2, 1, 2, 'small'), S(0, 1, 1, 3, 'bin')]


def strat_fresh(shard, nshards):
    from hypothesis import strategies as st
    return mcmcgen.config(shard, nshards, NODATA, dict(
        start=st.just('init'), split=st.sampled_from([[0, 40, 1], [40, 0, 1], [20, 5, 4], [0, 10, 4], [10, 30, 1], [0, 1, 40]])))


HIST = []


def record_fresh(*, bart, i_total, **_):
    import jax

    def cb(i, sigma2, leaf):
        HIST.append((int(i), float(sigma2), np.array(leaf)))
    jax.debug.callback(cb, i_total, bart['sigma2'], bart['leaf_trees'][:, 1])


@sub('C14', strategy=strat_fresh, quick=8, thorough=100, shards=2, rule='chains without data, such that the noise variance and the root values (trees never grown) are fresh draws at each iteration; iterations do not repeat draws and noise variances are not correlated; every case is non-trivial')
def fresh(case):
    from harness import sut
    state = mcmcgen.init_state(case)

    def run(i):
        HIST.clear()
        nb, ns, nk = case['split']
        final, _, _ = sut.mcmcloop.run_mcmc(state, nb, ns, nk, record_fresh, sut.key_of(case['key'], i))
        sut.jax.block_until_ready(final['sigma2'])
        sut.jax.effects_barrier()
        hist = sorted(HIST, key=lambda h: h[0])
        sig = np.array([h[1] for h in hist])
        leaf = np.array([h[2] for h in hist], np.float64)
        if len(np.unique(sig)) < len(sig):
            return 'noise variance draws are repeated'
        if len(np.unique(leaf)) < leaf.size:
            return 'leaf values are repeated'
        r = np.corrcoef(np.log(sig[1:]), np.log(sig[:-1]))[0, 1]
        if abs(r) > 0.85:
            return f'noise variances of consecutive iterations have correlation {r}'
        return None
    msg = None
    for i in range(3):
        msg = run(i)
        if msg is None:
            break
    require(msg is None, '%s', msg)
    return dict(labels=['%d/%d/%d' % tuple(case['split'])])


RMENU = [
    reggen.shape(30, 2, 9, ntree=4, d=4),
    reggen.shape(25, 3, 5, ntree=3, d=5, quants=True, numcut=255),
    reggen.shape(18, 2, 1, ntree=6, d=3),
]


def strat_reg(shard, nshards):
    from hypothesis import strategies as st
    return reggen.config(shard, nshards, RMENU, dict(ndpost=st.sampled_from([4, 1, 6]), nskip=st.sampled_from([3, 0, 1, 8]), keep=st.sampled_from([1, 2, 5])))


@sub('C14', strategy=strat_reg, quick=4, thorough=50, shards=3, rule='a regression with burn-in and thinning, compared with the one that saves all the iterations of the chain; every case is non-trivial')
def regression(case):
    from harness import sut
    X, y, T = reggen.data(case)
    nd, nb, nk = case['ndpost'], case['nskip'], case['keep']
    msgs = []
    for i in range(3):
        kw = dict(seed=(case['key'] + i) % 2 ** 31)
        a = reggen.fit(case, X, y, T, ndpost=nd, nskip=nb, keepevery=nk, **kw)
        full = reggen.fit(case, X, y, T, ndpost=nb + nd * nk, nskip=0, keepevery=1, **kw)
        scale = float(a.scale)
        sel = slice(nb + nk - 1, None, nk)
        msg = None
        for name, got, want in (
            ('first_sigma', a.first_sigma, full.sigma[:nb]),
            ('sigma', a.sigma, full.sigma[sel]),
            ('yhat_train', a.yhat_train - a.offset, full.yhat_train[sel] - a.offset),
            ('yhat_test', a.yhat_test - a.offset, full.yhat_test[sel] - a.offset)):
            if differs(np.asarray(got) / scale, np.asarray(want) / scale):
                msg = f'{name} is not made of the requested iterations of the chain'
                break
        msgs.append(msg)
        if msg is None:
            break
    require(None in msgs, '%s (ndpost=%d nskip=%d keepevery=%d)', msgs[0], nd, nb, nk)
    return dict(labels=[f'skip {min(nb, 2)} keep {min(nk, 2)}'])

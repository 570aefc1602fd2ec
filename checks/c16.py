"""C16: the progress log reports the actual iterations and move statistics."""

import contextlib
import functools
import io
import math
import re

import numpy as np

from harness import mcmcgen, reggen
from harness.core import require, sub

S = mcmcgen.shape
MENU = [
    S(20, 2, 4, 3, 'small', minpts=2),
    S(40, 2, 5, 7, 'mid', minpts=5),
    S(4, 2, 3, 2, 'small', minpts=5),
    S(30, 2, 3, 40, 'mid'),
    S(30, 3, 4, 5, 'zeros'),
    S(10, 1, 2, 1, 'bin'),
]
LINE = re.compile(r'^Iteration +(\d+)/(\d+) +P_grow=(\S+) +P_prune=(\S+) +A_grow=(\S+) +A_prune=(\S+?)( \(burnin\))?$')
COUNTS = {}


def strat(shard, nshards):
    from hypothesis import strategies as st
    return mcmcgen.config(shard, nshards, MENU, dict(
        n_burn=st.sampled_from([3, 0, 1, 9, 12]), n_save=st.sampled_from([4, 2, 0, 9, 1]), n_skip=st.sampled_from([1, 2, 3, 1]),
        every=st.sampled_from([1, 2, 3, 5, 10, 1000])))


def strat_long(shard, nshards):
    from hypothesis import strategies as st
    return mcmcgen.config(shard, nshards, MENU[:1] + MENU[-1:], dict(
        n_burn=st.sampled_from([70, 0, 400, 1100]), n_save=st.sampled_from([300, 0, 80, 990]), n_skip=st.sampled_from([1, 4]),
        every=st.sampled_from([300, 1, 17, 100, 255, 256, 257, 1000, 1024])))


@functools.lru_cache
def both(sut, every):
    log = sut.mcmcloop.make_simple_print_callback(every)

    def callback(**kw):
        def rec(i, *a):
            COUNTS[int(i)] = [int(x) for x in a]
        b = kw['bart']
        sut.jax.debug.callback(rec, kw['i_total'], *(b[k] for k in ('grow_prop_count', 'prune_prop_count', 'grow_acc_count', 'prune_acc_count')))
        log(**kw)
    return callback


def capture(sut, func):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = func()
        sut.jax.effects_barrier()
    return out, [l for l in buf.getvalue().split('\n') if l.strip()]


def ratio(a, b):
    return a / b if b else math.nan


def agrees(text, value):
    x = float(text)
    if math.isnan(value):
        return math.isnan(x)
    return abs(x - value) <= 0.005 + 1e-6


def check_lines(lines, nb, N, every, counts, ntree):
    parsed = []
    for l in lines:
        m = LINE.match(l)
        require(m, 'unexpected line %r', l)
        parsed.append(m.groups())
    want = [i for i in range(1, N + 1) if i % every == 0]
    got = [int(g[0]) for g in parsed]
    require(sorted(got) == want, 'lines for iterations %s instead of %s', got, want)
    for line, g in zip(lines, parsed):
        i = int(g[0])
        require(int(g[1]) == N, 'total is %s instead of %d', g[1], N)
        require((g[6] is not None) == (i <= nb), 'burn-in mark in %r with %d burn-in iterations', line, nb)
        if i - 1 in counts:
            gp, pp, ga, pa = counts[i - 1]
            for text, val, name in ((g[2], gp / ntree, 'P_grow'), (g[3], pp / ntree, 'P_prune'), (g[4], ratio(ga, gp), 'A_grow'), (g[5], ratio(pa, pp), 'A_prune')):
                require(agrees(text, val), '%s is %s instead of %s (counts %s, %d trees) in %r', name, text, val, counts[i - 1], ntree, line)


@sub('C16', strategy=strat, quick=7, thorough=80, shards=6, rule='a chain with given lengths, thinning and logging period; each logged line is compared with the counts recorded at that iteration by an independent callback; non-trivial if at least a line is expected')
def log(case):
    from harness import sut
    state = mcmcgen.start_state(case)
    nb, ns, nk, every = case['n_burn'], case['n_save'], case['n_skip'], case['every']
    COUNTS.clear()
    (final, _, _), lines = capture(sut, lambda: sut.jax.block_until_ready(_run(sut, state, nb, ns, nk, both(sut, every), case)))
    N = nb + ns * nk
    require(len(COUNTS) == N, 'callback was not called at each iteration')
    check_lines(lines, nb, N, every, COUNTS, case['shape']['ntree'])
    return dict(nontrivial=N >= every, labels=[f'every {every}'])


@sub('C16', strategy=strat_long, quick=6, thorough=40, shards=2, rule='as above, with hundreds or thousands of iterations; non-trivial if at least a line is expected')
def long(case):
    return log(case)


def _run(sut, state, nb, ns, nk, cb, case):
    final, burn, main = sut.mcmcloop.run_mcmc(state, nb, ns, nk, cb, sut.key_of(case['key']))
    return {k: v for k, v in final.items() if k == 'sigma2'}, burn, main


RMENU = [
    reggen.shape(30, 2, 0, ntree=4, d=4, ndpost=7, nskip=4),
    reggen.shape(40, 3, 0, ntree=9, d=5, ndpost=4, nskip=11, keep=2),
    reggen.shape(25, 1, 0, ntree=1, d=3, ndpost=10, nskip=0, keep=3),
]


def strat_reg(shard, nshards):
    from hypothesis import strategies as st
    return reggen.config(shard, nshards, RMENU, dict(every=st.sampled_from([1, 2, 3, 5, 11, 100])))


@sub('C16', strategy=strat_reg, quick=7, thorough=60, shards=3, rule='a regression with a logging period: the log lines have the right index, total and burn-in mark, and for saved iterations the right statistics; non-trivial if at least a line is expected')
def regression(case):
    from harness import sut
    s = case['shape']
    X, y, _ = reggen.data(case)
    b, lines = capture(sut, lambda: _fit(sut, case, X, y))
    trace = sut.main_trace(b)
    c = [np.asarray(trace[k]) for k in ('grow_prop_count', 'prune_prop_count', 'grow_acc_count', 'prune_acc_count')]
    counts = {s['nskip'] + (i + 1) * s['keep'] - 1: [int(x[i]) for x in c] for i in range(s['ndpost'])}
    N = s['nskip'] + s['ndpost'] * s['keep']
    check_lines(lines, s['nskip'], N, case['every'], counts, s['ntree'])
    return dict(nontrivial=N >= case['every'], labels=[f'every {case["every"]}'])


def _fit(sut, case, X, y):
    b = reggen.fit(case, X, y, printevery=case['every'])
    sut.jax.block_until_ready(b.sigma)
    return b

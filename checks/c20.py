"""C20: batch sizes, ratio saving and data order do not change a step."""

import numpy as np

from harness import mcmcgen, ref
from harness.core import require, sub

from checks.c15 import close

S = mcmcgen.shape
MENU = [
    S(20, 2, 4, 3, 'small', minpts=2, T=5),
    S(100, 3, 6, 4, 'mid', minpts=5, T=5),
    S(33, 2, 5, 2, 'u16', T=5),
    S(0, 2, 3, 2, 'small', T=5),
    S(257, 4, 5, 6, 'mid', minpts=10, T=5),
    S(61, 2, 4, 3, 'zeros', minpts=1, small='f16', T=5),
    S(1000, 2, 6, 2, 'u8', minpts=5, T=5),
    S(9, 3, 3, 20, 'bin', minpts=1, T=5),
]
BATCHES = [None, 'auto', 1, 2, 3, 7, 8, 16, 32, 64, 100, 1024]


def strat(shard, nshards):
    from hypothesis import strategies as st
    # few variants on each shard, to limit compilations; the seed of the run
    # does not change the menu
    rng = ref.rng_of(shard, 20)
    variants = [[BATCHES[rng.integers(len(BATCHES))], BATCHES[rng.integers(len(BATCHES))], bool(rng.integers(2))] for _ in range(5)]
    return mcmcgen.config(shard, nshards, MENU, dict(variant=st.sampled_from(variants), perm=st.booleans()))


def strat_wide(shard, nshards):
    from hypothesis import strategies as st
    return mcmcgen.config(shard, nshards, MENU, dict(
        variant=st.tuples(st.sampled_from(BATCHES), st.sampled_from(BATCHES), st.booleans()).map(list), perm=st.booleans()))


def with_options(case, state, rb, cb, ratios):
    """A state with the same content and different options."""
    other = mcmcgen.init_state(case, resid_batch_size=rb, count_batch_size=cb, save_ratios=ratios)
    return dict(other, **{k: v for k, v in state.items() if k not in ('opt', 'ratios')})


def compare(sut, case, base, var, key, perm):
    run = mcmcgen._scan()
    keys = sut.random.split(key, case['shape']['T'])
    _, t1 = run(base, keys)
    _, t2 = run(var, keys)
    t1, t2 = mcmcgen.clean(t1), mcmcgen.clean(t2)
    for k in t2:
        if k in ('ratios', 'opt') and k not in t1:
            t1[k] = t2[k]
    for t in range(case['shape']['T']):
        s1, s2 = mcmcgen.index(t1, t), mcmcgen.index(t2, t)
        s1.pop('ratios', None), s2.pop('ratios', None), s1.pop('opt'), s2.pop('opt')
        if perm is not None:
            for k in ('X', 'y', 'resid', 'leaf_indices'):
                s1[k] = s1[k][..., perm]
        if set(s1) != set(s2):
            return f'fields {sorted(set(s1) ^ set(s2))}', False
        d = close(s1, s2)
        if d:
            return f'{d} at step {t}', False
    return None, bool((s1['split_trees'] > 0).any())


def check(case):
    from harness import sut
    base = mcmcgen.start_state(case)
    rb, cb, ratios = case['variant']
    var = with_options(case, base, rb, cb, ratios)
    perm = None
    n = case['shape']['n']
    if case['perm']:
        perm = ref.rng_of(case['seed'], 5).permutation(n)
        var = dict(var, X=var['X'][:, perm], y=var['y'][perm], resid=var['resid'][perm], leaf_indices=var['leaf_indices'][:, perm])
    # roundoff can flip a decision, rarely
    msg, grown = compare(sut, case, base, var, sut.key_of(case['key']), perm)
    if msg is not None:
        again = [compare(sut, case, base, var, sut.key_of(case['key'], i), perm)[0] for i in (1, 2, 3)]
        if not any(again):
            msg = None
    require(msg is None, 'with resid_batch_size=%s count_batch_size=%s save_ratios=%s%s the result differs in %s', rb, cb, ratios, ' and permuted data' if case['perm'] else '', msg)
    return dict(nontrivial=bool(grown and (perm is not None or [rb, cb, ratios] != ['auto', 'auto', False])), labels=[f'resid {rb}', f'count {cb}', f'ratios {ratios}', f'perm {case["perm"]}'])


@sub('C20', strategy=strat, quick=14, thorough=60, shards=8, rule='a state (initial or generated forest) stepped 5 times with default options and with other batch sizes, ratio saving, and data order: same trees and counters, same values up to roundoff (a difference must show up with two keys out of four, because roundoff can flip a decision); non-trivial if there are decision nodes and the variant differs')
def options(case):
    return check(case)


@sub('C20', strategy=strat_wide, quick=3, thorough=60, shards=8, rule='as above, with any combination of batch sizes')
def combinations(case):
    return check(case)


# numbers of datapoints in the same leaf and batch at type boundaries
FULL = [
    S(512, 2, 3, 2, 'bin', minpts=300, T=3),
    S(600, 2, 3, 2, 'bin', minpts=1, T=3),
    S(65536, 1, 2, 2, 'bin', minpts=40000, T=2),
    S(512, 2, 3, 2, 'bin', minpts=None, T=3),
    S(131072, 1, 2, 2, 'bin', minpts=1, T=2),
    S(256, 2, 3, 2, 'bin', minpts=200, T=3),
    S(768, 1, 3, 2, 'small', minpts=1, T=3),
    S(1024, 2, 2, 2, 'bin', minpts=10, T=3),
]


def strat_full(shard, nshards):
    from hypothesis import strategies as st
    n = FULL[shard % len(FULL)]['n']
    sizes = [256, n] + [257, 512, 255, 128, n - 1, 2 * n, 65536, 65535]
    return mcmcgen.config(shard, nshards, FULL, dict(
        variant=st.tuples(st.sampled_from([None, *sizes]), st.sampled_from(sizes[:5] + sizes[:2] if n < 60000 else [256, 65536, n]), st.booleans()).map(list),
        ydist=st.sampled_from(['offset', 'big', 'step']), sig=st.sampled_from(['mid', 'low']), start=st.just('init'),
        xdist=st.just('lopsided'), perm=st.booleans()))


@sub('C20', strategy=strat_full, quick=4, thorough=50, shards=8, rule='as above, with hundreds of datapoints in the same leaf, and batch sizes at type boundaries')
def full(case):
    out = check(case)
    return dict(out, nontrivial=case['shape']['n'] >= 256)

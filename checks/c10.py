"""C10: moves are accepted with the exact Metropolis-Hastings ratio."""

import functools
import math

import numpy as np

from harness import mcmcgen, ref, stat
from harness.core import require, sub

shape = mcmcgen.shape
K = 32

MENU = [
    shape(6, 1, 2, 1, 'bin'),
    shape(10, 2, 3, 1, 'small', ratios=True),
    shape(0, 2, 3, 2, 'small', ratios=True),
    shape(20, 2, 3, 2, 'small', minpts=3),
    shape(40, 3, 4, 3, 'mid', minpts=5, ratios=True),
    shape(30, 3, 4, 2, 'zeros', ratios=True),
    shape(64, 2, 5, 2, 'mid', minpts=1, rb=None, cb=None, ratios=True),
    shape(50, 4, 5, 4, 'one', minpts=2, rb=7, cb=5),
    shape(25, 2, 4, 5, 'bin', ratios=True),
    shape(100, 2, 6, 2, 'u8', minpts=5, ratios=True),
    shape(80, 3, 7, 1, 'mid', ratios=True, cb=16),
    shape(33, 3, 6, 2, 'mixed', minpts=0, ratios=True),
    shape(60, 2, 4, 2, 'u16', minpts=4, rb=128, ratios=True),
    shape(16, 2, 4, 2, 'small', minpts=2, ratios=True),
    shape(45, 3, 8, 1, 'mid', minpts=1, ratios=True),
    shape(48, 3, 5, 3, 'one', minpts=3, ratios=True),
    # leaves with one to four times the minimum number of datapoints
    shape(12, 2, 3, 1, 'mid', minpts=4, ratios=True),
    shape(30, 2, 4, 2, 'mid', minpts=10, ratios=True),
    shape(14, 3, 4, 3, 'mid', minpts=5, ratios=True),
    shape(21, 2, 5, 2, 'small', minpts=6, ratios=True),
]


def strat(shard, nshards, menu=MENU):
    from hypothesis import strategies as st
    return mcmcgen.config(shard, nshards, menu, dict(p_split=st.sampled_from([0.6, 0.85, 0.3, 1.])))


@functools.cache
def _runner():
    from harness import sut

    def run(state, key):
        k1, k2 = sut.random.split(key)
        moves = sut.mcmcstep.sample_moves(state, k1)
        post = sut.mcmcstep.accept_moves_and_sample_leaves(state, moves, k2)
        out = {k: post[k] for k in ('leaf_trees', 'var_trees', 'split_trees', 'leaf_indices', 'resid', 'grow_acc_count', 'prune_acc_count', 'grow_prop_count', 'prune_prop_count')}
        if 'ratios' in post:
            out['ratios'] = post['ratios']
        return {k: moves[k] for k in ('allowed', 'grow', 'node', 'grow_var', 'grow_split', 'logu')}, out
    return sut.jax.jit(sut.jax.vmap(run, in_axes=(None, 0)))


def rules(var, split):
    inner, _ = ref.walk(split)
    return {i: (int(var[i]), int(split[i])) for i in inner}


@sub('C10', strategy=strat, quick=30, thorough=600, shards=8,
     rule='a generated valid state (any trees, not only those reached by the chain) and 32 keys; for each key and tree, the decision on the proposed move, the reported ratios and the resulting tree are compared with a float64 reference that goes through the sweep; non-trivial if both grow and prune moves were accepted and rejected')
def decisions(case):
    from harness import sut
    state, info = mcmcgen.random_forest_state(case)
    keys = sut.random.split(sut.key_of(case['key']), K)
    moves, post = sut.npz(_runner()(state, keys))
    X, y, max_split, minpts, ntree, p_nt = (info[k] for k in ('X', 'y', 'max_split', 'minpts', 'ntree', 'p_nt'))
    sigma2 = info['sigma2']
    tally = dict(grow_acc=0, grow_rej=0, prune_acc=0, prune_rej=0, impossible=0, too_few=0, tie=0)
    cache = {}
    for k in range(K):
        resid = info['resid'].copy()
        gacc = pacc = 0
        for t in range(ntree):
            var, split = info['var'][t], info['split'][t]
            resid = resid + info['leaf'][t][info['idx'][t]]
            allowed, grow = bool(moves['allowed'][k, t]), bool(moves['grow'][k, t])
            node = int(moves['node'][k, t])
            logu = float(moves['logu'][k, t])
            nvar, nsplit = post['var_trees'][k, t].astype(np.int64), post['split_trees'][k, t].astype(np.int64)
            old, new = rules(var, split), rules(nvar, nsplit)
            where = f'key {k} tree {t}: {"grow" if grow else "prune"} node {node}'
            require(logu <= 0, '%s: log of uniform is %g', where, logu)
            expected = None
            if not allowed:
                tally['impossible'] += 1
                expected = False
            else:
                if grow:
                    rule = int(moves['grow_var'][k, t]), int(moves['grow_split'][k, t])
                    before = var, split
                else:
                    rule = old.get(node)
                    require(rule is not None, '%s: not a decision node', where)
                    b = split.copy()
                    b[node] = 0
                    before = var, b
                if grow:
                    g = ref.growable(split, ref.node_counts(X, var, split), minpts)
                    require(node in g, '%s: not a growable leaf %s', where, g)
                    ok = ref.avail_all(var, split, max_split, node)
                    require(rule[0] in ok and ok[rule[0]][0] <= rule[1] < ok[rule[0]][1], '%s: rule %s not available %s', where, rule, ok.get(rule[0]))
                else:
                    require(node in ref.leaf_parents(split), '%s: children are not leaves', where)
                ltp, llk, scale, nl, nr = ref.mh_ratio_grow(X, *before, node, rule, p_nt, max_split, minpts, resid, sigma2, ntree)
                ratio = ltp + llk if grow else -(ltp + llk)
                tol = 1e-4 + 3e-6 * scale
                enough = minpts is None or min(nl, nr) >= minpts
                if 'ratios' in post and enough:
                    a = float(post['ratios']['log_trans_prior'][k, t])
                    b = float(post['ratios']['log_likelihood'][k, t])
                    require(abs(a - ltp) <= 1e-4, '%s: log prior and transition ratio is %.6g, should be %.6g', where, a, ltp)
                    require(abs(b - llk) <= tol, '%s: log likelihood ratio is %.6g, should be %.6g, tolerance %.2g', where, b, llk, tol)
                if not enough:
                    expected = False
                    tally['too_few'] += 1
                elif abs(logu - ratio) <= tol:
                    tally['tie'] += 1
                else:
                    expected = logu <= ratio
                    tally[('grow' if grow else 'prune') + ('_acc' if expected else '_rej')] += 1
            # resulting tree
            accepted = new != old
            if expected is not None:
                require(accepted == expected, '%s: %s, but log u = %.6g and log ratio = %s, allowed = %s', where,
                        'accepted' if accepted else 'rejected', logu, ratio if allowed else None, allowed)
            if accepted:
                want = dict(old)
                if grow:
                    want[node] = rule
                else:
                    del want[node]
                require(new == want, '%s: accepted, the rules are %s instead of %s', where, new, want)
                gacc += grow
                pacc += not grow
            extra = set(np.flatnonzero(nsplit)) - set(new)
            require(not extra, '%s: stray decision nodes %s', where, extra)
            idx = ref.traverse(X, nvar, nsplit)
            require(np.array_equal(idx, post['leaf_indices'][k, t]), '%s: wrong leaf indices', where)
            resid = resid - np.asarray(post['leaf_trees'][k, t], np.float64)[idx]
        require(int(post['grow_acc_count'][k]) == gacc and int(post['prune_acc_count'][k]) == pacc,
                'key %d: accepted %d grow, %d prune, but counters are %d, %d', k, gacc, pacc, post['grow_acc_count'][k], post['prune_acc_count'][k])
        a = moves['allowed'][k]
        require(int(post['prune_prop_count'][k]) == np.count_nonzero(a & ~moves['grow'][k]), 'key %d: wrong count of prune proposals', k)
        gp = int(post['grow_prop_count'][k])
        require(np.count_nonzero(a & moves['grow'][k]) <= gp <= np.count_nonzero(moves['grow'][k]), 'key %d: wrong count of grow proposals', k)
    return dict(nontrivial=all(tally[a] for a in ('grow_acc', 'grow_rej', 'prune_acc', 'prune_rej')),
                labels=[a for a, b in tally.items() if b], note=f'{tally}')


def strat_edge(shard, nshards):
    return strat(shard, nshards, [s for s in MENU if s['ratios']])


@functools.cache
def _edge():
    from harness import sut

    def accept(state, moves, key):
        post = sut.mcmcstep.accept_moves_and_sample_leaves(state, moves, key)
        return post['split_trees'], post['ratios']

    def run(state, key, shift):
        k1, k2 = sut.random.split(key)
        moves = sut.mcmcstep.sample_moves(state, k1)
        _, r = accept(state, moves, k2)
        logr = r['log_trans_prior'] + r['log_likelihood']
        logr = sut.jnp.where(moves['grow'], logr, -logr)
        # move the uniform variable of the first tree right below or above
        # the ratio
        logu = moves['logu'].at[0].set(sut.jnp.minimum(0, logr[0] + shift))
        split, _ = accept(state, dict(moves, logu=logu), k2)
        return moves['allowed'][0], moves['grow'][0], moves['node'][0], moves['grow_var'][0], moves['grow_split'][0], logr[0], logu[0], split[0]
    return sut.jax.jit(sut.jax.vmap(run, in_axes=(None, 0, None)))


@sub('C10', strategy=strat_edge, quick=25, thorough=400, shards=4,
     rule='a generated valid state and 32 keys; the uniform variable of the first tree is placed 0.02 below and above the reported ratio, the move must be accepted in the first case only; non-trivial if some ratio is below 1')
def threshold(case):
    from harness import sut
    state, info = mcmcgen.random_forest_state(case)
    keys = sut.random.split(sut.key_of(case['key']), K)
    minpts = info['minpts']
    below1 = 0
    for shift in (-0.02, 0.02):
        allowed, grow, node, gvar, gsplit, logr, logu, split = sut.npz(_edge()(state, keys, shift))
        for k in range(K):
            changed = not np.array_equal(split[k], info['split'][0])
            if not allowed[k]:
                require(not changed, 'key %d: impossible move accepted', k)
                continue
            require(np.isfinite(logr[k]), 'key %d: log ratio of a possible move is %g', k, logr[k])
            var0, split0 = info['var'][0].copy(), info['split'][0].copy()
            if grow[k]:
                var0[node[k]], split0[node[k]] = gvar[k], gsplit[k]
            idx = ref.traverse(info['X'], var0, split0)
            nl, nr = (idx == 2 * node[k]).sum(), (idx == 2 * node[k] + 1).sum()
            enough = minpts is None or min(nl, nr) >= minpts
            want = enough and logu[k] <= logr[k]
            require(changed == want, 'key %d: %s node %d with log u = %.6g, log ratio = %.6g, %d and %d points: accepted = %s', k, 'grow' if grow[k] else 'prune', node[k], logu[k], logr[k], nl, nr, changed)
            below1 += logr[k] < 0
    return dict(nontrivial=below1 > 0)


KERNEL = [
    shape(16, 2, 4, 1, 'mid'), shape(20, 3, 4, 1, 'small'), shape(0, 3, 4, 2, 'small'), shape(40, 2, 4, 2, 'mid', minpts=3),
    shape(30, 4, 5, 2, 'small'), shape(60, 3, 4, 3, 'mid', minpts=5, rb=None, cb=7), shape(25, 3, 5, 2, 'bin'), shape(33, 2, 4, 1, 'mid', minpts=0, ratios=True),
    shape(30, 2, 5, 2, 'mid', minpts=1), shape(80, 4, 4, 4, 'small', minpts=10, rb=8), shape(9, 2, 4, 2, 'small', minpts=5), shape(36, 3, 4, 2, 'zeros', minpts=2),
    shape(12, 2, 3, 1, 'one'), shape(50, 2, 6, 2, 'mid', minpts=2), shape(40, 3, 4, 10, 'small', minpts=3), shape(24, 3, 5, 3, 'mid'),
    shape(12, 2, 3, 1, 'mid', minpts=4), shape(30, 2, 4, 1, 'mid', minpts=10),
]


def strat_kernel(shard, nshards):
    from hypothesis import strategies as st
    # not too informative data, such that most moves have relevant probability
    return mcmcgen.config(shard, nshards, KERNEL, dict(
        p_split=st.sampled_from([0.6, 0.3]), ydist=st.sampled_from(['normal', 'step']), sig=st.sampled_from(['high', 'mid', 'high']),
        pnt=st.sampled_from(['deep', 'flat', 'default', 'increasing'])))


@functools.cache
def _step():
    from harness import sut

    def run(state, key):
        post = sut.mcmcstep.step(state, key)
        return post['var_trees'][0], post['split_trees'][0]
    return sut.jax.jit(sut.jax.vmap(run, in_axes=(None, 0)))


def kernel_of(info):
    """
    Transition probabilities of the first tree. Returns dict of rules after the
    step -> probability.
    """
    X, max_split, minpts, p_nt = info['X'], info['max_split'], info['minpts'], info['p_nt']
    var, split = info['var'][0], info['split'][0]
    resid = info['resid'] + info['leaf'][0][info['idx'][0]]
    g = ref.growable(split, ref.node_counts(X, var, split), minpts)
    parents = ref.leaf_parents(split)
    pg = 0.5 if g and parents else float(bool(g))
    old = rules(var, split)
    out = {}
    w = np.array([p_nt[ref.depth_of(i)] for i in g])

    def ratio(before, node, rule):
        ltp, llk, _, nl, nr = ref.mh_ratio_grow(X, *before, node, rule, p_nt, max_split, minpts, resid, info['sigma2'], info['ntree'])
        return ltp + llk, minpts is None or min(nl, nr) >= minpts

    for i, wi in zip(g, w):
        ok = ref.avail_all(var, split, max_split, i)
        for v, (l, r) in ok.items():
            for s in range(l, r):
                lr, enough = ratio((var, split), i, (v, s))
                if enough:
                    new = frozenset({**old, i: (v, s)}.items())
                    out[new] = pg * wi / w.sum() / len(ok) / (r - l) * math.exp(min(0, lr))
    for i in parents:
        b = split.copy()
        b[i] = 0
        lr, _ = ratio((var, b), i, old[i])
        new = frozenset((k, v) for k, v in old.items() if k != i)
        out[new] = (1 - pg) / len(parents) * math.exp(min(0, -lr))
    moved = math.fsum(out.values())
    assert moved <= 1 + 1e-9, moved
    out[frozenset(old.items())] = max(0., 1 - moved)
    return out


@sub('C10', strategy=strat_kernel, quick=10, thorough=250, shards=8, opt=1, shrink=False,
     rule='a generated valid state and 20000 alternative next states; the frequencies of the changes of the first tree are compared with their exact probabilities, i.e., proposal probability times acceptance probability (chi-squared, to be confirmed on other keys), and no other change may happen; non-trivial if the tree can both grow and be pruned')
def kernel(case):
    from harness import sut
    state, info = mcmcgen.random_forest_state(case)
    probs = kernel_of(info)
    cells = sorted(probs, key=str)
    where = {c: i for i, c in enumerate(cells)}
    size = {c: len(c) for c in cells}
    n0 = len(rules(info['var'][0], info['split'][0]))
    N = 20000

    def run(i):
        var, split = sut.npz(_step()(state, sut.random.split(sut.key_of(case['key'], i), N)))
        split = split.astype(np.int64)
        rows = np.concatenate([np.where(split != 0, var, 0), split], 1)
        u, cnt = np.unique(rows, axis=0, return_counts=True)
        counts = np.zeros(len(cells))
        h = split.shape[1]
        for r, c in zip(u, cnt):
            new = frozenset(rules(r[:h], r[h:]).items())
            require(new in where, 'the first tree became %s, which is not reachable in a step from %s', sorted(new), sorted(rules(info['var'][0], info['split'][0]).items()))
            counts[where[new]] += c
        p = {'moves': ref.chi2_pvalue(counts, [probs[c] for c in cells])}
        kind = [[counts[[size[c] == k for c in cells]].sum(), sum(probs[c] for c in cells if size[c] == k)] for k in (n0 - 1, n0, n0 + 1)]
        kind = np.array(kind)
        for name, k in (('pruned', 0), ('unchanged', 1), ('grown', 2)):
            p[name] = ref.chi2_pvalue([kind[k, 0], N - kind[k, 0]], [kind[k, 1], 1 - kind[k, 1]])
        return p

    bad = stat.confirm(run)
    require(not bad, 'wrong transition probabilities of the first tree, p-values: %s', bad)
    kinds = {size[c] - n0 for c in cells if probs[c] > 1e-3}
    return dict(nontrivial={-1, 1} <= kinds, labels=[f'kinds {sorted(kinds)}', f'{len(cells)} cells' if len(cells) < 6 else 'more cells'])

"""C07: every MCMC state is internally coherent."""

import numpy as np

from harness import mcmcgen, ref
from harness.core import require, sub

DYNAMIC = {'leaf_trees', 'var_trees', 'split_trees', 'resid', 'sigma2', 'grow_prop_count', 'grow_acc_count',
           'prune_prop_count', 'prune_acc_count', 'leaf_indices', 'affluence_trees', 'ratios'}


def nodes(var, split):
    inner, _ = ref.walk(split)
    return {i: (int(var[i]), int(split[i])) for i in inner}


def check_static(init, states):
    for k, v in init.items():
        if k in DYNAMIC or not isinstance(v, np.ndarray):
            continue
        for t, s in enumerate(states):
            require(k in s, 'step %d: field %r disappeared', t, k)
            require(v.dtype == s[k].dtype and v.tobytes() == s[k].tobytes(), 'step %d: field %r changed', t, k)


def check_coherence(case, s, t, M, minpts):
    """Check the caches of one state against the trees; return leaf indices."""
    X, y = s['X'], np.asarray(s['y'], np.float64)
    ntree, size = s['leaf_trees'].shape
    fit = np.zeros(len(y))
    for j in range(ntree):
        idx = ref.traverse(X, s['var_trees'][j], s['split_trees'][j])
        got = s['leaf_indices'][j].astype(np.int64)
        if not np.array_equal(idx, got):
            k = np.flatnonzero(idx != got)[0]
            require(False, 'step %d tree %d: datapoint %d is in leaf %d but the state says %d', t, j, k, idx[k], got[k])
        fit += np.asarray(s['leaf_trees'][j], np.float64)[idx]
        if minpts is not None:
            counts = np.bincount(idx, minlength=size)
            _, leaves = ref.walk(s['split_trees'][j])
            for i in leaves:
                if i < size // 2:
                    require(bool(s['affluence_trees'][j][i]) == bool(counts[i] >= 2 * minpts),
                            'step %d tree %d leaf %d: %d points, minimum per leaf %d, but flagged %s', t, j, i, counts[i], minpts, s['affluence_trees'][j][i])
    if minpts is None:
        require(s['affluence_trees'] is None, 'affluence_trees is %r without min_points_per_leaf', s['affluence_trees'])
    if len(y):
        err = np.max(np.abs(y - fit - s['resid']))
        tol = (2. ** -22 if s['resid'].dtype == np.float32 else 2. ** -50) * (4 + (t + 1) * ntree) * M
        require(err <= tol, 'step %d: residuals differ from responses minus predictions by %g > %g', t, err, tol)


def can_move(s, j, minpts):
    """Whether a tree can propose to grow and to prune."""
    split = s['split_trees'][j]
    inner, leaves = ref.walk(split)
    leaves = [i for i in leaves if i < len(split)]
    if minpts is not None:
        counts = np.bincount(ref.traverse(s['X'], s['var_trees'][j], split), minlength=2 * len(split))
        leaves = [i for i in leaves if counts[i] >= 2 * minpts]
    return bool(leaves), bool(inner)


def check_proposals(pre, post, t, minpts):
    gp, pp = int(post['grow_prop_count']), int(post['prune_prop_count'])
    can = [can_move(pre, j, minpts) for j in range(len(pre['var_trees']))]
    total = sum(g or p for g, p in can)
    require(gp + pp == total, 'step %d: %d grow and %d prune proposals, but %d of %d trees can propose a move', t, gp, pp, total, len(can))
    low, high = sum(g and not p for g, p in can), sum(g for g, p in can)
    require(low <= gp <= high, 'step %d: %d grow proposals, but %d trees can grow, of which %d can not be pruned', t, gp, high, low)


def check_transition(pre, post, t):
    ntree = len(pre['var_trees'])
    ngrow = nprune = 0
    for j in range(ntree):
        a = nodes(pre['var_trees'][j], pre['split_trees'][j])
        b = nodes(post['var_trees'][j], post['split_trees'][j])
        if a == b:
            continue
        added = [i for i in b if i not in a]
        removed = [i for i in a if i not in b]
        changed = [i for i in a if i in b and a[i] != b[i]]
        require(not changed, 'step %d tree %d: rules at nodes %s changed in place', t, j, changed)
        require(len(added) + len(removed) == 1, 'step %d tree %d: added nodes %s, removed nodes %s', t, j, added, removed)
        if added:
            ngrow += 1
        else:
            nprune += 1
            i, = removed
            require(2 * i not in a and 2 * i + 1 not in a, 'step %d tree %d: pruned node %d has decision children', t, j, i)
    gp, ga, pp, pa = (int(post[k]) for k in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'))
    require(ga == ngrow, 'step %d: %d trees have grown but grow_acc_count=%d', t, ngrow, ga)
    require(pa == nprune, 'step %d: %d trees were pruned but prune_acc_count=%d', t, nprune, pa)
    require(ga <= gp and pa <= pp and gp + pp <= ntree, 'step %d: inconsistent counts grow %d/%d prune %d/%d with %d trees', t, ga, gp, pa, pp, ntree)
    return ngrow, nprune


def scale_of(init, states):
    M = float(np.max(np.abs(init['y']), initial=1.))
    acc = 0.
    for s in states:
        acc = max(acc, float(np.max(np.abs(s['leaf_trees']))))
    return M + acc * (1 + np.sqrt(len(states[0]['leaf_trees']))) if states else M


@sub('C07', strategy=mcmcgen.config, quick=50, thorough=1200, shards=8,
     rule='an MCMC trajectory of 4-100 steps from a generated configuration (datasets, priors, options); all states are compared with a recomputation from trees and data; non-trivial if at least one grow and one prune move were accepted')
def trajectory(case):
    init, states = mcmcgen.trajectory(case)
    minpts = case['shape']['minpts']
    M = scale_of(init, states)
    check_static(init, states)
    check_coherence(case, init, -1, M, minpts)
    g = p = 0
    deepest = 0
    pre = init
    for t, s in enumerate(states):
        check_coherence(case, s, t, M, minpts)
        a, b = check_transition(pre, s, t)
        if np.all(s['p_nonterminal'][:-1] > 0):
            check_proposals(pre, s, t, minpts)
        g, p = g + a, p + b
        pre = s
    for s in states[::7]:
        for j in range(len(s['split_trees'])):
            deepest = max(deepest, max(ref.depth_of(i) for i in ref.walk(s['split_trees'][j])[1]))
    labels = [f'depth reached {deepest}/{case["shape"]["d"] - 1}', f'minpts {minpts}', f'float {case["shape"]["small"]}']
    return dict(nontrivial=g > 0 and p > 0, labels=labels, note=f'{g} grow and {p} prune moves accepted in {len(states)} steps')

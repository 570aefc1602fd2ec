"""
Reference model, in plain numpy, float64 and Python integers: decision trees as
heap arrays, valid rules, tree prior, Metropolis-Hastings ratios. Written from
the documentation, shares no code with the package under test.
"""

import math

import numpy as np


def rng_of(*seeds):
    return np.random.Generator(np.random.PCG64([int(s) for s in seeds]))


# ------------------------------------------------------------- trees

def depth_of(i):
    return int(i).bit_length() - 1


def traverse(X, var, split):
    """Leaf index of each column of X (p, n) in the tree, walking from the root."""
    X = np.asarray(X)
    var = np.asarray(var).astype(np.int64)
    split = np.asarray(split).astype(np.int64)
    n = X.shape[1]
    half = len(split)
    index = np.ones(n, np.int64)
    cols = np.arange(n)
    for _ in range(depth_of(2 * half) if half else 0):
        inner = index < half
        s = np.where(inner, split[np.where(inner, index, 0)], 0)
        s = np.where(inner, s, 0)
        go = s != 0
        v = np.where(go, var[np.where(inner, index, 0)], 0)
        if not go.any():
            break
        x = X[v, cols].astype(np.int64)
        right = x >= s
        index = np.where(go, 2 * index + right, index)
    return index


def walk(split):
    """Return (decision nodes, leaves) found walking from the root. `split` has
    size 2 ** (d - 1); nodes at index >= size are bottom leaves."""
    half = len(split)
    inner, leaves = [], []
    stack = [1]
    while stack:
        i = stack.pop()
        if i < half and int(split[i]) != 0:
            inner.append(i)
            stack.append(2 * i + 1)
            stack.append(2 * i)
        else:
            leaves.append(i)
    return inner, leaves


def leaf_parents(split):
    inner, leaves = walk(split)
    leaves = set(leaves)
    return [i for i in inner if 2 * i in leaves and 2 * i + 1 in leaves]


def avail(var, split, max_split, node, v):
    """Range [l, r) of the available cutpoints of predictor v at a node."""
    l, r = 1, int(max_split[v]) + 1
    i = int(node)
    while i > 1:
        parent = i >> 1
        if int(var[parent]) == v:
            s = int(split[parent])
            if i & 1:
                l = max(l, s + 1)
            else:
                r = min(r, s)
        i = parent
    return l, max(l, r)


def avail_all(var, split, max_split, node):
    """Dict of predictors with non-empty ranges of available cutpoints."""
    used = set()
    i = int(node)
    while i > 1:
        i >>= 1
        used.add(int(var[i]))
    out = {}
    for v in range(len(max_split)):
        if v in used:
            l, r = avail(var, split, max_split, node, v)
        else:
            l, r = 1, int(max_split[v]) + 1
        if r > l:
            out[v] = (l, r)
    return out


def random_tree(rng, d, max_split, p_split=0.7, var_pool=None, spine=None):
    """
    A random valid tree of maximum depth d: (var, split) int64 arrays. `spine`,
    if specified, is a point whose path is always split, using as few of the
    available cutpoints as possible, to reach the bottom of deep trees.
    """
    half = 2 ** (d - 1)
    var = np.zeros(half, np.int64)
    split = np.zeros(half, np.int64)
    stack = [1]
    on_spine = 1 if spine is not None else 0
    while stack:
        i = stack.pop()
        if i >= half or (i != on_spine and rng.random() > p_split):
            continue
        ok = avail_all(var, split, max_split, i)
        if var_pool is not None:
            ok = {v: lr for v, lr in ok.items() if v in var_pool} or ok
        if not ok:
            continue
        v = list(ok)[rng.integers(len(ok))]
        l, r = ok[v]
        mode = rng.integers(4)
        if i == on_spine:
            s = l if spine[v] >= l else r - 1
            on_spine = 2 * i + int(spine[v] >= s)
        elif mode == 0:
            s = l
        elif mode == 1:
            s = r - 1
        else:
            s = int(rng.integers(l, r))
        var[i], split[i] = v, s
        stack += [2 * i, 2 * i + 1]
    return var, split


def garbage_var(rng, var, split, p):
    """Fill unused slots of var (leaves) with arbitrary existing predictors."""
    inner, _ = walk(split)
    mask = np.ones(len(var), bool)
    mask[inner] = False
    mask[0] = False
    out = var.copy()
    out[mask] = rng.integers(0, p, mask.sum())
    return out


def tree_problems(var, split, max_split, nonneg_only=False):
    """List of violations of the rules validity of a tree."""
    var = np.asarray(var).astype(np.int64)
    split = np.asarray(split).astype(np.int64)
    half = len(split)
    bad = []
    if split[0] != 0:
        bad.append(f'unused slot has split {split[0]}')
    inner, _ = walk(split)
    inner_set = set(inner)
    for i in np.flatnonzero(split):
        if i != 0 and int(i) not in inner_set:
            bad.append(f'decision node {i} hangs from a leaf')
    for i in inner:
        v, s = int(var[i]), int(split[i])
        if not 0 <= v < len(max_split):
            bad.append(f'node {i} splits on non-existing predictor {v}')
            continue
        l, r = avail(var, split, max_split, i, v)
        if not l <= s < r:
            bad.append(f'node {i}: rule x[{v}] < {s} not in the available range [{l}, {r}) (max_split={int(max_split[v])})')
    return bad


# ------------------------------------------------------------- tree prior

def growable(split, counts, minpts):
    """Leaves that can be proposed for growth. counts: dict node -> n points."""
    half = len(split)
    _, leaves = walk(split)
    return [i for i in leaves if i < half and (minpts is None or counts[i] >= 2 * minpts)]


def node_counts(X, var, split):
    """Number of points through each node (leaf and decision), as a dict."""
    idx = traverse(X, var, split)
    counts = {}
    inner, leaves = walk(split)
    for i in inner + leaves:
        counts[i] = 0
    for i, c in zip(*np.unique(idx, return_counts=True)):
        i = int(i)
        while i >= 1:
            counts[i] = counts.get(i, 0) + int(c)
            i >>= 1
    return counts


def log_prior(var, split, max_split, p_nt):
    """Log of the unnormalized tree prior. p_nt: (d,) padded with zero."""
    inner, leaves = walk(split)
    lp = 0.
    for i in inner:
        ok = avail_all(var, split, max_split, i)
        l, r = ok[int(var[i])]
        lp += math.log(p_nt[depth_of(i)]) - math.log(len(ok)) - math.log(r - l)
    for i in leaves:
        lp += math.log1p(-p_nt[depth_of(i)])
    return lp


def log_grow_prob(X, var, split, node, p_nt, max_split, minpts, with_rule=None):
    """
    Log probability of proposing to grow `node` (with the given rule if
    with_rule=(v, s)) from the tree.
    """
    counts = node_counts(X, var, split)
    g = growable(split, counts, minpts)
    assert node in g
    is_root = int(split[1]) == 0 if len(split) > 1 else True
    lp = 0. if is_root else math.log(0.5)
    w = {i: p_nt[depth_of(i)] for i in g}
    lp += math.log(w[node] / math.fsum(w.values()))
    if with_rule is not None:
        ok = avail_all(var, split, max_split, node)
        v, _ = with_rule
        l, r = ok[v]
        lp -= math.log(len(ok)) + math.log(r - l)
    return lp


def log_prune_prob(X, var, split, node, minpts):
    counts = node_counts(X, var, split)
    g = growable(split, counts, minpts)
    parents = leaf_parents(split)
    assert node in parents
    return (math.log(0.5) if g else 0.) - math.log(len(parents))


def log_lik_leaf(n, sumr, sigma2, sigma_mu2):
    """Log marginal likelihood of the residuals in a leaf, up to terms that do
    not depend on how points are partitioned."""
    return (
        0.5 * math.log(sigma2 / (sigma2 + n * sigma_mu2))
        + sigma_mu2 * sumr * sumr / (2 * sigma2 * (sigma2 + n * sigma_mu2))
    )


def mh_ratio_grow(X, var, split, node, rule, p_nt, max_split, minpts, resid, sigma2, ntree):
    """
    Exact log MH ratio for growing `node` with `rule` in the tree. `resid` are
    the residuals with respect to the other trees. Returns (log_trans_prior,
    log_lik, scale) where scale is a magnitude for the roundoff of log_lik.
    """
    v, s = rule
    var = np.asarray(var).astype(np.int64)
    split = np.asarray(split).astype(np.int64)
    nvar, nsplit = var.copy(), split.copy()
    nvar[node], nsplit[node] = v, s
    lp = log_prior(nvar, nsplit, max_split, p_nt) - log_prior(var, split, max_split, p_nt)
    lt = log_prune_prob(X, nvar, nsplit, node, minpts)
    lt -= log_grow_prob(X, var, split, node, p_nt, max_split, minpts, rule)
    idx = traverse(X, nvar, nsplit)
    left = idx == 2 * node
    right = idx == 2 * node + 1
    nl, nr = int(left.sum()), int(right.sum())
    sl, sr = math.fsum(resid[left]), math.fsum(resid[right])
    mu2 = 1 / ntree
    a = log_lik_leaf(nl, sl, sigma2, mu2)
    b = log_lik_leaf(nr, sr, sigma2, mu2)
    c = log_lik_leaf(nl + nr, sl + sr, sigma2, mu2)
    f = mu2 / (2 * sigma2)
    abssum = float(np.abs(resid[left | right]).sum())
    scale = 1 + f * (sl * sl / (sigma2 + nl * mu2) + sr * sr / (sigma2 + nr * mu2) + (sl + sr) ** 2 / (sigma2 + (nl + nr) * mu2))
    # roundoff of the sums of residuals propagates with weight |s| * sum|r|
    scale += 2 * f * (abs(sl) * abssum / (sigma2 + nl * mu2) + abs(sr) * abssum / (sigma2 + nr * mu2) + abs(sl + sr) * abssum / (sigma2 + (nl + nr) * mu2))
    return lp + lt, a + b - c, scale, nl, nr


def enumerate_trees(d, max_split, p_nt, X=None, minpts=None):
    """
    All valid trees of maximum depth d with their prior weights, restricted to
    min points per leaf (for trees that are split). List of (var, split, weight).
    Weights are not normalized if restricted.
    """
    half = 2 ** (d - 1)
    out = []

    def rec(todo, var, split, w):
        if not todo:
            out.append((var.copy(), split.copy(), w))
            return
        i, rest = todo[0], todo[1:]
        p = p_nt[depth_of(i)]
        # leaf
        rec(rest, var, split, w * (1 - p))
        if i < half and p > 0:
            ok = avail_all(var, split, max_split, i)
            for v, (l, r) in ok.items():
                for s in range(l, r):
                    var[i], split[i] = v, s
                    rec(rest + [2 * i, 2 * i + 1], var, split, w * p / len(ok) / (r - l))
                    var[i], split[i] = 0, 0

    rec([1], np.zeros(half, np.int64), np.zeros(half, np.int64), 1.)
    if minpts is not None and X is not None:
        keep = []
        for var, split, w in out:
            if len(split) > 1 and split[1]:
                c = node_counts(X, var, split)
                _, leaves = walk(split)
                if min(c[i] for i in leaves) < minpts:
                    continue
            keep.append((var, split, w))
        out = keep
    return out


# ------------------------------------------------------------- statistics

def ks_pvalue(u):
    from scipy import stats
    return stats.kstest(u, 'uniform').pvalue


def chi2_pvalue(counts, probs, min_expected=25):
    """Chi-squared test, merging small cells together."""
    from scipy import stats
    counts = np.asarray(counts, float)
    probs = np.asarray(probs, float)
    n = counts.sum()
    e = probs / probs.sum() * n
    order = np.argsort(e)
    gc, ge = [], []
    ac = ae = 0.
    for i in order:
        ac += counts[i]
        ae += e[i]
        if ae >= min_expected:
            gc.append(ac)
            ge.append(ae)
            ac = ae = 0.
    if ae > 0 and ge:
        gc[-1] += ac
        ge[-1] += ae
    if len(ge) < 2:
        return 1.
    gc, ge = np.array(gc), np.array(ge)
    stat = ((gc - ge) ** 2 / ge).sum()
    return float(stats.chi2.sf(stat, len(ge) - 1))

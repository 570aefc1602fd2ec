"""C11: move proposals follow their declared distribution."""

import functools

import numpy as np

from harness import mcmcgen, ref, stat
from harness.core import Skip, require, sub

shape = mcmcgen.shape

MENU = [
    shape(10, 2, 3, 2, 'small'),
    shape(0, 3, 4, 2, 'one'),
    shape(40, 3, 4, 3, 'small', minpts=5),
    shape(30, 4, 5, 2, 'zeros'),
    shape(60, 2, 5, 2, 'mid', minpts=2),
    shape(25, 5, 6, 2, 'bin'),
    shape(50, 2, 6, 2, 'u8', minpts=1),
    shape(20, 3, 2, 3, 'small'),
    shape(16, 257, 3, 2, 'bin'),
    shape(30, 3, 7, 1, 'one', minpts=0),
    shape(40, 2, 4, 4, 'mixed', minpts=6),
    shape(35, 3, 5, 3, 'one', minpts=3),
    shape(12, 1, 1, 2, 'bin'),
    shape(70, 2, 8, 1, 'mid'),
    shape(20, 2, 4, 2, 'u16', minpts=2),
    shape(9, 2, 4, 2, 'small', minpts=5),
    shape(12, 256, 3, 2, 'bin'),
    shape(14, 255, 2, 2, 'bin'),
    shape(12, 256, 4, 2, 'one', minpts=2),
]
N = 8000


def strat(shard, nshards, menu=MENU):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        shape=st.sampled_from(menu[shard::nshards]), pnt=st.sampled_from(['deep', 'default', 'increasing', 'flat']),
        xdist=st.sampled_from(['uniform', 'clumped']), ydist=st.just('normal'), sig=st.just('mid'),
        p_split=st.sampled_from([0.6, 0.85, 0.3, 1.]),
        seed=st.integers(0, 2 ** 32 - 1), key=st.integers(0, 2 ** 32 - 1)))


@functools.cache
def _proposer():
    from harness import sut
    return sut.jax.jit(sut.jax.vmap(sut.mcmcstep.sample_moves, in_axes=(None, 0)))


def proposal_distribution(info, t):
    """Dict of probabilities of the proposals of a tree."""
    X, max_split, minpts, p_nt = info['X'], info['max_split'], info['minpts'], info['p_nt']
    var, split = info['var'][t], info['split'][t]
    g = ref.growable(split, ref.node_counts(X, var, split), minpts)
    parents = ref.leaf_parents(split)
    pg = 0.5 if g and parents else float(bool(g))
    out = {}
    w = np.array([p_nt[ref.depth_of(i)] for i in g])
    for i, wi in zip(g, w):
        ok = ref.avail_all(var, split, max_split, i)
        pl = pg * wi / w.sum()
        if not ok:
            out['impossible'] = out.get('impossible', 0) + pl
        for v, (l, r) in ok.items():
            for s in range(l, r):
                out['grow', i, v, s] = pl / len(ok) / (r - l)
    for i in parents:
        out['prune', i] = (1 - pg) / len(parents)
    if not out:
        out['impossible'] = 1.
    return out, len(g)


@sub('C11', strategy=strat, quick=14, thorough=250, shards=8, opt=1, shrink=False,
     rule='a generated valid state and 8000 proposals for each tree, compared with the exact enumeration of the possible moves and their probabilities: no impossible move, chi-squared tests of the frequencies (to be confirmed on other keys), uniformity and independence of the acceptance variable, independence between trees; non-trivial if both kinds of moves are possible in some tree')
def proposals(case):
    from harness import sut
    state, info = mcmcgen.random_forest_state(case)
    ntree = info['ntree']
    dist = [proposal_distribution(info, t) for t in range(ntree)]
    both = False

    def run(i):
        nonlocal both
        moves = sut.npz(_proposer()(state, sut.random.split(sut.key_of(case['key'], i), N)))
        pvals = {}
        cats = []
        zs = []
        for t in range(ntree):
            probs, ng = dist[t]
            half = len(info['split'][t])
            m = {k: v[:, t] for k, v in moves.items()}
            require(np.all(m['num_growable'] == ng), 'tree %d: num_growable is %s instead of %d', t, np.unique(m['num_growable']), ng)
            allowed, grow = m['allowed'].astype(bool), m['grow'].astype(bool)
            node = m['node'].astype(np.int64)
            require(np.all(m['left'][allowed] == 2 * node[allowed]) and np.all(m['right'][allowed] == 2 * node[allowed] + 1), 'tree %d: wrong children indices', t)
            cells = sorted(probs, key=str)
            where = {c: i for i, c in enumerate(cells)}
            # encode and count
            v = m['grow_var'].astype(np.int64)
            s = m['grow_split'].astype(np.int64)
            rows = np.stack([allowed, grow & allowed, np.where(allowed, node, 0), np.where(allowed & grow, v, 0), np.where(allowed & grow, s, 0)], 1)
            u, inv, cnt = np.unique(rows, axis=0, return_inverse=True, return_counts=True)
            counts = np.zeros(len(cells))
            rowcell = np.empty(len(u), int)
            for r, (a, gr, nd, vv, ss) in enumerate(u.tolist()):
                c = 'impossible' if not a else ('grow', nd, vv, ss) if gr else ('prune', nd)
                require(c in where, 'tree %d: proposed %s, which should never happen', t, c)
                counts[where[c]] += cnt[r]
                rowcell[r] = where[c]
            cat = rowcell[inv.ravel()]
            cats.append(cat)
            pvals[f'tree {t}: moves'] = ref.chi2_pvalue(counts, [probs[c] for c in cells])
            # marginals have more power
            for name, f in (
                ('kind', lambda c: c[0] if c != 'impossible' else c),
                ('node', lambda c: c[:2] if c != 'impossible' else c),
                ('variable', lambda c: (c[0], c[2]) if c[0] == 'grow' else None),
                ('cutpoint', lambda c: c[3] if c[0] == 'grow' else None),
            ):
                agg = {}
                for c, k in zip(cells, counts):
                    a = agg.setdefault(f(c), [0, 0])
                    a[0] += k
                    a[1] += probs[c]
                a = np.array(list(agg.values()))
                pvals[f'tree {t}: {name}'] = ref.chi2_pvalue(a[:, 0], a[:, 1])
            kinds = {c[0] for c in cells}
            both |= {'grow', 'prune'} <= kinds
            # updated variables
            vt = m['var_trees'].astype(np.int64)
            inner, _ = ref.walk(info['split'][t])
            require(np.all(vt[:, inner] == info['var'][t][inner]), 'tree %d: var_trees of decision nodes changed', t)
            sel = np.flatnonzero(allowed & grow)
            require(np.all(vt[sel, node[sel]] == v[sel]), 'tree %d: var_trees does not contain the new variable', t)
            # acceptance variable
            uu = np.exp(m['logu'].astype(float))
            require(np.all(m['logu'] <= 0), 'tree %d: logu > 0', t)
            for k, p in stat.uniform_tests(uu).items():
                pvals[f'tree {t}: acceptance variable {k}'] = p
            from scipy import stats
            z = stats.norm.ppf(np.clip(uu, 1e-7, 1 - 1e-7))
            zs.append(z)
            # independence of acceptance variable and move
            for c in np.argsort(-counts)[:4]:
                if counts[c] >= 200:
                    pvals[f'tree {t}: acceptance variable given {cells[c]}'] = stats.kstest(uu[cat == c], 'uniform').pvalue
        for t in range(1, ntree):
            pvals[f'trees {t - 1}, {t}: correlation of acceptance variables'] = stat.corr_test(zs[t], zs[t - 1])
            from scipy import stats
            # independence of moves, on the most frequent ones
            a, b = [np.where(c < 12, c, 12) for c in (np.unique(c, return_inverse=True)[1].ravel() for c in (cats[t - 1], cats[t]))]
            table = np.zeros((13, 13))
            np.add.at(table, (a, b), 1)
            table = table[table.sum(1) > 300][:, table.sum(0) > 300]
            if min(table.shape) >= 2 and (table.sum(1)[:, None] * table.sum(0) / table.sum()).min() >= 10:
                pvals[f'trees {t - 1}, {t}: independence of moves'] = stats.chi2_contingency(table).pvalue
        return pvals

    bad = stat.confirm(run)
    require(not bad, 'wrong distribution of proposals, p-values: %s', bad)
    labels = ['impossible moves'] * any('impossible' in d for d, _ in dist)
    return dict(nontrivial=both, labels=labels)


# ------------------------------------------------------------ samplers

def func(name):
    from harness import sut
    f = getattr(sut.mcmcstep, name, None)
    if f is None:
        raise Skip(f'no {name}')
    return f


def strat_samplers(shard, nshards):
    from hypothesis import strategies as st
    sizes = [1, 2, 3, 5, 256, 255, 257, 20, 64, 8, 300, 65536]
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(['exclude', 'masked', 'categorical']),
        n=st.sampled_from(sizes[shard::nshards]),
        m=st.sampled_from([0, 1, 4]),
        density=st.sampled_from([1., 0.5, 0.1, 0.9, 0., 1.]),
        dtype=st.sampled_from(['uint8', 'int32', 'uint16']),
        seed=st.integers(0, 2 ** 32 - 1),
    ))


@functools.cache
def _sampler(kind):
    from harness import sut
    f = {'exclude': lambda k, s, e: func('randint_exclude')(k, s, e), 'masked': lambda k, m: func('randint_masked')(k, m),
         'categorical': lambda k, d: func('categorical')(k, d)}[kind]
    return sut.jax.jit(sut.jax.vmap(f, in_axes=(0,) + (None,) * (2 if kind == 'exclude' else 1)), static_argnums=(1,) if kind == 'exclude' else ())


@sub('C11', strategy=strat_samplers, quick=50, thorough=800, shards=4, opt=1, shrink=False,
     rule='4000 draws of each random integer sampler (excluding values, masked, categorical) with generated range, excluded values with repetitions and out of range ones, masks, weights; frequencies compared with the declared probabilities; non-trivial if something is excluded or weights are not all equal')
def samplers(case):
    from harness import sut
    rng = ref.rng_of(case['seed'])
    n, kind = case['n'], case['kind']
    nontrivial = True
    if kind == 'exclude':
        func('randint_exclude')
        if n > 255 and case['dtype'] == 'uint8':
            case = dict(case, dtype='uint16')
        if n > 65535: # the type has to represent the upper bound
            case = dict(case, dtype='int32')
        size = min(4 * n, {0: 0, 1: 3, 4: 7}[case['m']] + int(case['density'] * min(n, 40)))
        e = rng.integers(0, n + 3, size)
        e = np.minimum(e, np.iinfo(case['dtype']).max)
        if case['density'] == 1.:
            e = np.concatenate([np.arange(n), e])
        # repeat some
        e = np.concatenate([e, e[: size // 2]])
        p = np.ones(n)
        p[e[e < n]] = 0
        args = n, sut.jnp.asarray(e.astype(case['dtype']))
        sentinel = n
        nontrivial = (p == 0).any()
    elif kind == 'masked':
        func('randint_masked')
        mask = rng.random(n) < case['density']
        p = mask.astype(float)
        args = (sut.jnp.asarray(mask),)
        sentinel = n
    else:
        func('categorical')
        p = rng.gamma(0.5, size=n) * (rng.random(n) < case['density']) * 10. ** rng.integers(-3, 3)
        p = p.astype(np.float32)
        args = (sut.jnp.asarray(p),)
        p = p.astype(float)
        sentinel = n
        nontrivial = len(np.unique(p)) > 1
    f = _sampler(kind)

    def run(i):
        u = f(sut.random.split(sut.key_of(case['seed'], i), 4000), *args)
        if kind == 'categorical':
            u, norm = u
            require(np.allclose(norm, p.sum(), rtol=1e-4), 'normalization of categorical is %s instead of %g', np.unique(norm), p.sum())
        u = np.asarray(u).astype(np.int64)
        if not p.any():
            require(np.all(u == sentinel), '%s: nothing is allowed, but got %s', kind, np.unique(u))
            return {}
        require(u.min() >= 0 and u.max() < n, '%s: values out of range %s', kind, [u.min(), u.max()])
        c = np.bincount(u, minlength=n)
        bad = np.flatnonzero((c > 0) & (p == 0))
        require(len(bad) == 0, '%s: got forbidden values %s', kind, bad)
        return dict(frequencies=ref.chi2_pvalue(c, p))

    bad = stat.confirm(run)
    require(not bad, '%s: wrong frequencies, p-values %s', kind, bad)
    return dict(nontrivial=bool(nontrivial), labels=[kind] + ['nothing allowed'] * (not p.any()))

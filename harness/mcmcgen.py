"""
Generation of MCMC configurations and trajectories, shared by the checks on the
MCMC. A case is a JSON dict; `shape` fixes everything that requires a new
compilation, the other fields are expanded to data deterministically.
"""

import functools
import itertools

import numpy as np

from . import ref


def shape(n, p, d, ntree, ms='small', minpts=None, small='f32', rb='auto', cb='auto', ratios=False, T=20):
    return dict(n=n, p=p, d=d, ntree=ntree, ms=ms, minpts=minpts, small=small, rb=rb, cb=cb, ratios=ratios, T=T)


# menu covering sizes, dtype boundaries, options; ordered from simple to complex
MENU = [
    shape(5, 1, 2, 1, 'bin', T=80),
    shape(8, 2, 3, 1, 'small', T=100),
    shape(30, 3, 4, 2, 'small', minpts=5, T=100),
    shape(50, 5, 5, 4, 'mid', minpts=1, ratios=True, T=80),
    shape(0, 2, 3, 2, 'small', T=100),
    shape(12, 3, 4, 3, 'zeros', T=100),
    shape(40, 4, 6, 3, 'bin', minpts=2, rb=None, cb=None, T=100),
    shape(100, 2, 6, 5, 'u8', minpts=5, rb=16, cb=16, T=80),
    shape(60, 3, 7, 2, 'u16', minpts=0, rb=1, cb=7, T=80),
    shape(33, 2, 8, 2, 'mid', rb=64, cb=1, T=80),
    shape(70, 6, 9, 2, 'small', minpts=1, rb=None, cb=3, ratios=True, T=80),
    shape(20, 1, 1, 2, 'bin', T=10),
    shape(17, 257, 4, 2, 'small', minpts=1, T=80),
    shape(64, 4, 6, 10, 'mid', minpts=5, small='bf16', T=60),
    shape(64, 4, 5, 4, 'mid', small='f16', rb=5, T=60),
    shape(300, 3, 4, 3, 'u16max', minpts=5, T=80),
    shape(25, 2, 6, 3, 'one', minpts=1, T=100),
    shape(1, 1, 3, 2, 'small', minpts=0, T=60),
    shape(9, 2, 4, 2, 'small', minpts=5, T=60),
    shape(10, 2, 4, 2, 'small', minpts=5, T=100),
    shape(40, 2, 3, 20, 'mid', minpts=3, cb=8, T=60),
    shape(200, 8, 6, 50, 'mid', minpts=5, T=15),
    shape(45, 3, 5, 3, 'zeros', minpts=2, ratios=True, T=100),
    shape(128, 2, 4, 257, 'mid', minpts=5, T=4),
    shape(11, 256, 3, 3, 'zeros', T=60),
    shape(48, 3, 10, 1, 'u8', minpts=1, T=100),
    shape(513, 2, 5, 2, 'mid', minpts=50, cb=100, T=80),
    shape(80, 2, 2, 6, 'u16', minpts=5, T=60),
    shape(150, 3, 6, 8, 'mixed', minpts=5, rb=7, T=80),
    shape(31, 4, 6, 1, 'mixed', minpts=1, cb=2, T=80),
    shape(2, 2, 5, 3, 'bin', T=50),
    shape(90, 1, 7, 2, 'mid', minpts=3, T=100),
    shape(60, 3, 9, 2, 'u8', T=60),
    shape(40, 3, 10, 1, 'mid', minpts=0, cb=9, T=60),
    shape(20, 4, 17, 1, 'u8', T=5),
    shape(70000, 2, 4, 2, 'mid', minpts=5, T=6),
    shape(66000, 2, 5, 1, 'u8', minpts=32000, cb=1000, rb=70000, T=6),
    shape(6, 65537, 3, 2, 'bin', T=8),
    shape(256, 2, 4, 2, 'mid', minpts=0, cb=None, T=40),
]


def config(shard, nshards, menu=None, extra=None):
    """Hypothesis strategy of MCMC cases."""
    from hypothesis import strategies as st
    menu = MENU if menu is None else menu
    mine = menu[shard::nshards] or menu
    d = dict(
        shape=st.sampled_from(mine),
        pnt=st.sampled_from(['deep', 'default', 'flat', 'increasing', 'high', 'deep', 'zerotail', 'rootone']),
        xdist=st.sampled_from(['uniform', 'skewed', 'clumped', 'uniform']),
        ydist=st.sampled_from(['normal', 'step', 'big', 'offset']),
        sig=st.sampled_from(['mid', 'mid', 'low', 'high', 'tiny', 'huge']),
        seed=st.integers(0, 2 ** 32 - 1),
        key=st.integers(0, 2 ** 32 - 1),
        start=st.sampled_from(['init', 'forest', 'spine']),
    )
    d.update(extra or {})
    return st.fixed_dictionaries(d)


def make_max_split(rng, kind, p):
    if kind == 'bin':
        ms = np.ones(p, np.int64)
    elif kind == 'one':
        ms = rng.integers(1, 3, p)
    elif kind == 'small':
        ms = rng.integers(1, 5, p)
    elif kind == 'zeros':
        ms = rng.integers(1, 4, p) * (rng.random(p) < 0.6)
    elif kind == 'mid':
        ms = rng.integers(3, 30, p)
    elif kind == 'mixed':
        ms = rng.choice([0, 1, 2, 7, 100, 255], p)
    elif kind == 'u8':
        ms = rng.choice([255, 254, 128, 127], p)
    elif kind == 'u16':
        ms = rng.integers(1, 400, p)
        ms[rng.integers(p)] = 256
    elif kind == 'u16max':
        ms = rng.choice([65535, 32768, 1], p)
        ms[rng.integers(p)] = 65535
    else:
        raise ValueError(kind)
    dtype = np.uint16 if kind in ('u16', 'u16max') else np.uint8
    return ms.astype(dtype)


def make_pnt(kind, d):
    depth = np.arange(d - 1)
    if kind == 'default':
        p = 0.95 / (1 + depth) ** 2
    elif kind == 'deep':
        p = np.linspace(0.99, 0.4, d + 1)[:d - 1] # grow moves are often accepted
    elif kind == 'high':
        p = np.full(d - 1, 0.95)
    elif kind == 'flat':
        p = np.full(d - 1, 0.5)
    elif kind == 'zerotail':
        p = np.where(depth < 2, 0.9, 0.)
    elif kind == 'rootone':
        p = np.where(depth < 1, 1., 0.6)
    elif kind == 'increasing':
        p = 0.2 + 0.7 * depth / max(1, d - 2)
    return p.astype(np.float32)


def make_X(rng, kind, max_split, n):
    p = len(max_split)
    X = np.empty((p, n), np.int64)
    for j in range(p):
        m = int(max_split[j])
        if kind == 'uniform':
            X[j] = rng.integers(0, m + 1, n)
        elif kind == 'lopsided': # nearly all the datapoints at one side
            X[j] = np.where(rng.random(n) < 0.02, rng.integers(0, m + 1, n), rng.choice([0, m]))
        elif kind == 'skewed':
            X[j] = np.minimum(rng.geometric(0.4, n) - 1, m)
        else:
            k = min(m + 1, 3)
            X[j] = rng.choice(rng.integers(0, m + 1, k), n)
    return X.astype(max_split.dtype)


def make_y(rng, kind, X):
    p, n = X.shape
    y = rng.standard_normal(n)
    if kind == 'step' and n:
        v = rng.integers(p)
        y = 0.3 * y + 1.5 * (X[v] > np.median(X[v])) + (X[rng.integers(p)] > 1)
    elif kind == 'big':
        y = 5 * y
    elif kind == 'offset':
        y = y + 3
    return y.astype(np.float32)


def inputs(case):
    """Numpy inputs of `init`."""
    s = case['shape']
    rng = ref.rng_of(case['seed'])
    max_split = make_max_split(rng, s['ms'], s['p'])
    X = make_X(rng, case['xdist'], max_split, s['n'])
    y = make_y(rng, case['ydist'], X)
    pnt = case['pnt']
    if pnt in ('zerotail', 'rootone') and (case.get('start') in ('forest', 'spine') or 'p_split' in case):
        pnt = 'default' # generated trees have to be possible under the prior
    alpha = {'mid': 1.5, 'low': 3., 'high': 1., 'tiny': 2., 'huge': 2.}[case['sig']]
    beta = alpha * {'mid': 0.3, 'low': 0.01, 'high': 5., 'tiny': 1e-6, 'huge': 1e6}[case['sig']]
    return dict(
        X=X, y=y, max_split=max_split, num_trees=s['ntree'],
        p_nonterminal=make_pnt(pnt, s['d']),
        sigma2_alpha=alpha, sigma2_beta=beta, min_points_per_leaf=s['minpts'],
        small=s['small'], resid_batch_size=s['rb'], count_batch_size=s['cb'], save_ratios=s['ratios'],
    )


def init_state(case, **over):
    from . import sut
    kw = inputs(case)
    small = kw.pop('small')
    for k in ('X', 'max_split', 'y'):
        kw[k] = sut.jnp.asarray(kw[k])
    kw['small_float'] = sut.dtype_of(small)
    if case['shape'].get('large'):
        kw['large_float'] = sut.dtype_of(case['shape']['large'])
    kw.update(over)
    return sut.mcmcstep.init(**kw)


def start_state(case):
    """The initial state, or a valid state with generated trees."""
    if case.get('start') in ('forest', 'spine'):
        return random_forest_state(case)[0]
    return init_state(case)


@functools.cache
def _scan():
    from . import sut

    def run(state, keys):
        def loop(state, key):
            new = sut.mcmcstep.step(state, key)
            return new, new
        return sut.jax.lax.scan(loop, state, keys)
    return sut.jax.jit(run)


def trajectory(case, state=None):
    """
    Run T steps. Return (init state, list of states), numpy arrays (float leaves
    and responses of low precision converted to float32).
    """
    from . import sut
    if state is None:
        state = start_state(case)
    keys = sut.random.split(sut.key_of(case['key']), case['shape']['T'])
    _, trace = _scan()(state, keys)
    init = clean(state)
    trace = clean(trace)
    T = case['shape']['T']
    return init, [index(trace, t) for t in range(T)]


def clean(state):
    import jax
    import jax.numpy as jnp

    def f(x):
        if not isinstance(x, jax.Array):
            return x
        if x.dtype in (jnp.bfloat16, jnp.float16):
            x = x.astype(jnp.float32)
        return np.asarray(x)
    return {k: (jax.tree_util.tree_map(f, v)) for k, v in state.items()}


def index(trace, t):
    import jax
    return {k: jax.tree_util.tree_map(lambda x: x[t] if isinstance(x, np.ndarray) else x, v) for k, v in trace.items()}


def random_forest_state(case, **over):
    """
    A valid MCMC state with generated non-trivial trees, which need not have
    been visited by the chain. Returns (state of the package, dict of numpy
    arrays).
    """
    from . import sut
    jnp = sut.jnp
    kw = inputs(case)
    s = case['shape']
    state = init_state(case, **over)
    rng = ref.rng_of(case['seed'], 1)
    max_split = kw['max_split'].astype(np.int64)
    X = kw['X']
    n, d, ntree, minpts = s['n'], s['d'], s['ntree'], s['minpts']
    half = 2 ** (d - 1)
    p_split = case.get('p_split', 0.6)
    var = np.zeros((ntree, half), np.int64)
    split = np.zeros((ntree, half), np.int64)
    leaf = np.zeros((ntree, 2 * half))
    idx = np.ones((ntree, n), np.int64)
    aff = np.zeros((ntree, half), bool)
    for t in range(ntree):
        point = X[:, rng.integers(n)].astype(int) if case.get('start') == 'spine' and n else None
        v, c = ref.random_tree(rng, d, max_split, p_split, spine=point)
        if minpts is not None:
            # cut until no leaf is below the minimum
            while c.size > 1 and c[1]:
                counts = ref.node_counts(X, v, c)
                _, leaves = ref.walk(c)
                low = [i for i in leaves if counts[i] < minpts]
                if not low:
                    break
                kill = low[0] >> 1
                for i in range(half):
                    j = i
                    while j > kill:
                        j >>= 1
                    if j == kill:
                        c[i] = 0
        v = ref.garbage_var(rng, v, c, s['p'])
        var[t], split[t] = v, c
        _, leaves = ref.walk(c)
        # unused slots contain leftovers in actual states
        leaf[t] = rng.standard_normal(2 * half) / np.sqrt(ntree)
        idx[t] = ref.traverse(X, v, c)
        counts = np.bincount(idx[t], minlength=2 * half)
        if minpts is not None:
            aff[t] = counts[:half] >= 2 * minpts
    leaf = np.asarray(jnp.asarray(leaf, state['leaf_trees'].dtype).astype(jnp.float32), np.float64)
    y = np.asarray(jnp.asarray(state['y']).astype(jnp.float32), np.float64)
    fit = np.zeros(n)
    for t in range(ntree):
        fit += leaf[t][idx[t]]
    resid = y - fit
    sigma2 = np.float32(kw['sigma2_beta'] / kw['sigma2_alpha'] * rng.choice([0.3, 1., 3.]))
    state = dict(
        state,
        leaf_trees=jnp.asarray(leaf).astype(state['leaf_trees'].dtype),
        var_trees=jnp.asarray(var).astype(state['var_trees'].dtype),
        split_trees=jnp.asarray(split).astype(state['split_trees'].dtype),
        leaf_indices=jnp.asarray(idx).astype(state['leaf_indices'].dtype),
        resid=jnp.asarray(resid, state['resid'].dtype),
        sigma2=jnp.asarray(sigma2, state['sigma2'].dtype),
    )
    if minpts is not None:
        state['affluence_trees'] = jnp.asarray(aff)
    info = dict(var=var, split=split, leaf=leaf, idx=idx, resid=np.asarray(state['resid'], np.float64), sigma2=float(sigma2),
                X=X, y=y, max_split=max_split, minpts=minpts, ntree=ntree,
                p_nt=np.append(kw['p_nonterminal'].astype(np.float64), 0.))
    return state, info

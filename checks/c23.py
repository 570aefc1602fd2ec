"""C23: tree diagnostics flag exactly the malformed trees."""

import contextlib
import io
import re

import numpy as np

from harness import mcmcgen, ref, reggen
from harness.core import Skip, require, sub

NAMES = ['check_types', 'check_sizes', 'check_unused_node', 'check_leaf_values', 'check_stray_nodes']
FAULTS = ['var type', 'split type', 'leaf size', 'var size', 'unused var', 'unused split', 'nan', 'inf', 'bottom nan', 'stray child', 'stray deep', 'two strays', 'stray far']
BITS = {'var type': 0, 'split type': 0, 'leaf size': 1, 'var size': 1, 'opposite sizes': 1, 'unused var': 2, 'unused split': 2, 'nan': 3, 'inf': 3, 'bottom nan': 3, 'stray child': 4, 'stray deep': 4, 'two strays': 4, 'stray far': 4}


def strat(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        d=st.sampled_from([2, 3, 1, 4, 6, 9]), p=st.sampled_from([1, 3, 256, 257]), sdtype=st.sampled_from(['uint8', 'uint16']),
        p_split=st.sampled_from([0.7, 0, 0.3, 1]), faults=st.one_of(st.lists(st.sampled_from(FAULTS), max_size=3, unique=True), st.lists(st.sampled_from(FAULTS), max_size=3, unique=True), st.just(['opposite sizes'])), seed=st.integers(0, 2 ** 32 - 1)))


def make_tree(case, rng):
    """Return leaf, var, split, max_split, expected faults."""
    d, p = case['d'], case['p']
    sd = np.dtype(case['sdtype'])
    max_split = rng.integers(1, 200 if sd == np.uint8 else 500, p).astype(sd)
    var, split = ref.random_tree(rng, d, max_split.astype(int), case['p_split'])
    var = ref.garbage_var(rng, var, split, p)
    half = 2 ** (d - 1)
    leaf = rng.standard_normal(2 * half).astype(np.float32)
    var = var.astype('uint8' if p <= 256 else 'uint16')
    split = split.astype(sd)
    want = set()
    inner, leaves = ref.walk(split)
    for f in case['faults']:
        done = True
        if f == 'var type':
            var = var.astype('uint16' if var.dtype == np.uint8 else 'uint32')
        elif f == 'split type':
            split = split.astype('uint16' if sd == np.uint8 else 'uint32')
        elif f == 'leaf size':
            leaf = np.concatenate([leaf, leaf])
        elif f == 'opposite sizes' and half > 2:
            var, split = np.concatenate([var, var[:half // 4]]), split[:half - half // 4]
        elif f == 'var size' and f:
            var = np.concatenate([var, var])
        elif f == 'unused var' and p > 1:
            var[0] = 1
        elif f == 'unused split':
            split[0] = rng.integers(1, 50)
        elif f in ('nan', 'inf'):
            leaf[leaves[rng.integers(len(leaves))]] = {'nan': np.nan, 'inf': rng.choice([np.inf, -np.inf])}[f]
        elif f == 'bottom nan' and any(i >= half for i in leaves):
            leaf[[i for i in leaves if i >= half][0]] = np.nan
        elif f.startswith('stray') or f == 'two strays':
            pool = [i for i in range(2, half) if split[i >> 1] == 0 and split[i] == 0]
            if f == 'stray child': # directly under an actual leaf
                pool = [i for i in pool if (i >> 1) in leaves]
            elif f == 'stray deep':
                pool = [i for i in pool if (i >> 1) not in leaves]
            elif f == 'stray far':
                pool = [i for i in pool if 2 * i >= half]
            if not pool:
                done = False
            else:
                for _ in range(2 if f == 'two strays' else 1):
                    split[pool[rng.integers(len(pool))]] = rng.integers(1, 200)
        else:
            done = False
        if done:
            want.add(BITS[f])
    return leaf, var, split, max_split, want


def describe(sut, error):
    names = sut.debug.describe_error(error)
    if any(not isinstance(n, str) or n not in NAMES for n in names):
        raise Skip('error names')
    return sorted(NAMES.index(n) for n in names)


@sub('C23', strategy=strat, quick=150, thorough=2000, shards=4, rule='a well-formed tree with 0-3 kinds of faults injected (types, sizes, unused slots, non-finite leaves, stray decision nodes); the checker reports exactly the violated conditions; non-trivial if there is a fault or a decision node')
def check_tree(case):
    from harness import sut
    rng = ref.rng_of(case['seed'])
    leaf, var, split, max_split, want = make_tree(case, rng)
    arrays = [sut.jnp.asarray(a) for a in (leaf, var, split, max_split)]
    error = sut.debug.check_tree(*arrays)
    require(np.shape(error) == () and np.issubdtype(np.asarray(error).dtype, np.integer), 'error is %r', error)
    got = describe(sut, error)
    require(got == sorted(want), 'reported %s instead of %s', [NAMES[i] for i in got], [NAMES[i] for i in sorted(want)])
    require((int(error) == 0) == (not want), 'error is %s with faults %s', error, want)
    # one bit per condition
    require(bin(int(error)).count('1') == len(want), 'error is %s with %d violated conditions', error, len(want))
    return dict(nontrivial=bool(want or split[1:2].any()), labels=case['faults'] or ['well-formed'])


def strat_forest(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        d=st.sampled_from([3, 2, 5]), p=st.sampled_from([3, 257]), sdtype=st.sampled_from(['uint8', 'uint16']), p_split=st.sampled_from([0.7, 1, 0.3]),
        shape=st.sampled_from([[3, 4], [1, 1], [2, 7], [0, 3]]), seed=st.integers(0, 2 ** 32 - 1)))


@sub('C23', strategy=strat_forest, quick=25, thorough=250, shards=2, rule='forests and traces where each tree has different faults; the checkers of forests and traces report, for each tree, the same error as the checker of trees; non-trivial if there is at least a faulty tree')
def check_trace(case):
    from harness import sut
    jnp = sut.jnp
    rng = ref.rng_of(case['seed'])
    S, T = case['shape']
    pool = [f for f in FAULTS if 'type' not in f and 'size' not in f]
    trees = []
    ms = None
    for _ in range(max(1, S) * T):
        faults = list(rng.choice(pool, rng.integers(0, 3), replace=False))
        leaf, var, split, m, want = make_tree(dict(case, faults=faults), rng)
        ms = m if ms is None else ms
        trees.append((leaf, var, split, want))
    single = [describe(sut, sut.debug.check_tree(jnp.asarray(l), jnp.asarray(v), jnp.asarray(s), jnp.asarray(ms))) for l, v, s, _ in trees]
    for got, (_, _, _, want) in zip(single, trees):
        require(got == sorted(want), 'reported %s instead of %s', got, sorted(want))
    stack = [np.stack([t[i] for t in trees]).reshape((max(1, S), T) + trees[0][i].shape)[:S] for i in range(3)]
    trace = dict(leaf_trees=jnp.asarray(stack[0]), var_trees=jnp.asarray(stack[1]), split_trees=jnp.asarray(stack[2]))
    err = np.asarray(sut.debug.check_trace(trace, dict(max_split=jnp.asarray(ms))))
    require(err.shape == (S, T), 'errors of a trace have shape %s', err.shape)
    for i in range(S):
        f = np.asarray(sut.debug.check_forest(*(jnp.asarray(a[i]) for a in stack), jnp.asarray(ms)))
        require(np.array_equal(f, err[i]), 'errors of the forest are %s and of the trace %s', f, err[i])
        for j in range(T):
            require(describe(sut, int(err[i, j])) == sorted(trees[i * T + j][3]), 'iteration %d tree %d: reported %s instead of %s', i, j, describe(sut, int(err[i, j])), trees[i * T + j][3])
    return dict(nontrivial=bool((err != 0).any()), labels=[str(case['shape'])])


@sub('C23', strategy=lambda s, n: mcmcgen.config(s, n, [m for m in mcmcgen.MENU if m['ntree'] < 50]), quick=3, thorough=20, shards=4, rule='chains of the sampler: no error on any tree of the trace; non-trivial if there are decision nodes')
def chain(case):
    from harness import sut
    jnp = sut.jnp
    state = mcmcgen.start_state(case)
    keys = sut.random.split(sut.key_of(case['key']), case['shape']['T'])
    _, trace = mcmcgen._scan()(state, keys)
    err = np.asarray(sut.debug.check_trace({k: trace[k] for k in ('leaf_trees', 'var_trees', 'split_trees')}, state))
    require(err.shape == (case['shape']['T'], case['shape']['ntree']), 'shape of errors is %s', err.shape)
    require(not err.any(), 'errors on valid trees: %s', [sut.debug.describe_error(int(e)) for e in np.unique(err)])
    return dict(nontrivial=bool(np.asarray(trace['split_trees']).any()))


def strat_print(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        d=st.sampled_from([2, 3, 1, 4, 6]), p=st.sampled_from([1, 3, 257]), sdtype=st.sampled_from(['uint8', 'uint16']),
        p_split=st.sampled_from([0.7, 0.8, 0.9, 0.5, 1, 0]), scale=st.sampled_from([1., 1e-3, 1e3]), seed=st.integers(0, 2 ** 32 - 1)))


@sub('C23', strategy=strat_print, quick=60, thorough=500, shards=3, rule='a well-formed tree is printed and the text parsed back: nodes in preorder with rules and values, in the short and full formats; non-trivial if there is at least a decision node')
def print_tree(case):
    from harness import sut
    rng = ref.rng_of(case['seed'])
    leaf, var, split, max_split, _ = make_tree(dict(case, faults=[]), rng)
    leaf = (leaf * case['scale']).astype(np.float32)
    arrays = [sut.jnp.asarray(a) for a in (leaf, var, split)]
    inner, leaves = ref.walk(split)
    half = len(split)

    def capture(**kw):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            sut.debug.print_tree(*arrays, **kw)
        out = []
        for line in buf.getvalue().split('\n'):
            if line.strip():
                m = re.match(r'^ *(\d+) (.*)$', line)
                require(m, 'unexpected line %r', line)
                out.append((int(m[1]), re.sub(r'^[^-+0-9.(a-z]*', '', m[2])))
        return out

    def preorder(i, full):
        out = [i]
        if (2 * i < 2 * half if full else i in inner):
            out += preorder(2 * i, full) + preorder(2 * i + 1, full)
        return out
    lines = capture()
    require([i for i, _ in lines] == preorder(1, False), 'printed nodes %s instead of %s', [i for i, _ in lines], preorder(1, False))
    for i, text in lines:
        if i in inner:
            m = re.match(r'^\((\d+): (\d+)\)$', text)
            require(m and (int(m[1]), int(m[2])) == (var[i], split[i]), 'decision node %d is printed as %r instead of (%s: %s)', i, text, var[i], split[i])
        else:
            try:
                x = float(text)
            except ValueError:
                x = np.nan
            require(abs(x - leaf[i]) <= 0.051 * abs(leaf[i]), 'leaf %d is printed as %r instead of %s', i, text, leaf[i])
    full = capture(print_all=True)
    require([i for i, _ in full] == preorder(1, True), 'all printed nodes %s', [i for i, _ in full])
    for i, text in full:
        kind = 'decision' if i in inner else 'leaf' if i in leaves else 'unused'
        m = re.match(r'^(\w+)\((\d+), (\d+), (\S+)\)$', text)
        require(m, 'unexpected node %r', text)
        require(m[1] == kind, 'node %d is printed as %r instead of %s', i, text, kind)
        if kind == 'decision':
            require((int(m[2]), int(m[3])) == (var[i], split[i]), 'node %d is printed as %r', i, text)
        if kind == 'leaf':
            require(abs(float(m[4]) - leaf[i]) <= 1e-3 * abs(leaf[i]), 'node %d is printed as %r instead of %s', i, text, leaf[i])
    return dict(nontrivial=bool(inner), labels=[f'{len(inner)} decision nodes' if len(inner) < 3 else 'many decision nodes'])

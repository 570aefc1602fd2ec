"""C21: numeric utilities match their reference definitions."""

import numpy as np
from scipy import special, stats

from harness import ref
from harness.core import require, sub

INTS = ['int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32']


def strat_unique(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        n=st.sampled_from([0, 1, 2, 3, 7, 30, 255, 256, 257, 300][shard::nshards]), size=st.sampled_from([0, 1, 2, 5, 29, 30, 31, 256, 257, 400]),
        dtype=st.sampled_from(INTS + ['float32', 'float16', 'float32', 'bool']), kind=st.sampled_from(['few', 'many', 'extreme', 'equal', 'sorted', 'close', 'close']),
        fill=st.sampled_from(['max', 'zero', 'same', 'other']), seed=st.integers(0, 2 ** 32 - 1)))


@sub('C21', strategy=strat_unique, quick=80, thorough=1000, shards=4, rule='an array of any type with repeated values and an output length above or below the number of distinct values; compared with numpy; non-trivial if there are at least 2 distinct values and not all values are distinct, or the length is not the number of distinct values')
def unique(case):
    from harness import sut
    rng = ref.rng_of(case['seed'])
    n, size = case['n'], case['size']
    dt = np.dtype(case['dtype'])
    if dt.kind == 'b':
        lo, hi = 0, 1
    elif dt.kind == 'f':
        lo, hi = -1000, 1000
    else:
        lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
    if case['kind'] == 'few':
        x = rng.choice(rng.integers(lo, hi, 4, dtype=dt.type if dt.kind in 'iu' else np.int64, endpoint=True), n)
    elif case['kind'] == 'extreme':
        x = rng.choice(np.array([lo, hi, lo + 1, hi - 1] + [0] * (dt.kind != 'b'), dt if dt.kind in 'iu' else np.int64), n)
    elif case['kind'] == 'equal':
        x = np.full(n, rng.choice(np.array([lo, hi], dt if dt.kind in 'iu' else np.int64)))
    else:
        x = rng.integers(lo, hi, n, dtype=dt.type if dt.kind in 'iu' else np.int64, endpoint=True)
        if case['kind'] == 'sorted':
            x = np.sort(x)
    x = x.astype(dt)
    if dt.kind == 'f' and case['kind'] == 'many':
        x = (x * rng.random(n)).astype(dt)
    if case['kind'] == 'close' and n:
        # neighbouring values
        x = np.full(n, x[0])
        for i in range(1, n):
            if rng.random() < 0.6:
                step = dt.type(rng.choice([-1, 1])) if dt.kind == 'i' else dt.type(1)
                x[i] = np.nextafter(x[i - 1], dt.type(rng.choice([-np.inf, np.inf]))) if dt.kind == 'f' else np.clip(int(x[i - 1]) + int(step), lo, hi)
        if dt.kind == 'f':
            x[np.abs(x) < 1e-3] = 0 # no denormals
    fill = {'max': np.inf if dt.kind == 'f' else hi, 'zero': 0, 'same': x[0] if n else 0, 'other': 1}[case['fill']]
    fill = dt.type(fill)
    out, length = sut.jaxext.unique(sut.jnp.asarray(x), size, fill)
    u = np.unique(x)
    want = np.full(size, fill, dt)
    want[:min(size, len(u))] = u[:size]
    require(out.shape == (size,) and out.dtype == dt, 'output has shape %s type %s', out.shape, out.dtype)
    require(np.array_equal(np.asarray(out), want), 'unique values are %s instead of %s', np.asarray(out)[:10], want[:10])
    require(int(length) == min(size, len(u)), 'length is %s instead of %s', length, min(size, len(u)))
    return dict(nontrivial=bool(len(u) >= 2 and len(u) < n or len(u) != size), labels=[case['dtype'], 'cut' if size < len(u) else 'padded' if size > len(u) else 'exact'])


def strat_types(shard, nshards):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        m=st.one_of(st.integers(0, 70000), st.integers(0, 2 ** 33), st.sampled_from([2 ** k + d for k in (1, 7, 8, 15, 16, 31, 32) for d in (-1, 0, 1)])),
        dtype=st.sampled_from(INTS + ['float32', 'float16', 'bfloat16']), shape=st.sampled_from([[], [0], [7], [2, 3]]), seed=st.integers(0, 2 ** 32 - 1)))


@sub('C21', strategy=strat_types, quick=300, thorough=3000, shards=1, rule='a maximum value for the minimal unsigned type, and an array of integer or float type for the conversion to unsigned and the largest value; every case is non-trivial')
def types(case):
    from harness import sut
    jnp, jx = sut.jnp, sut.jaxext
    m = case['m']
    want = next(t for t in ('uint8', 'uint16', 'uint32', 'uint64') if m <= np.iinfo(t).max)
    require(np.dtype(jx.minimal_unsigned_dtype(m)) == want, 'minimal_unsigned_dtype(%d) is %s instead of %s', m, jx.minimal_unsigned_dtype(m), want)
    rng = ref.rng_of(case['seed'])
    name = case['dtype']
    dt = jnp.dtype(name)
    if name in INTS:
        info = np.iinfo(name)
        x = np.array(rng.integers(info.min, info.max + 1, case['shape'])).astype(name)
        if x.size:
            x.flat[0] = rng.choice([info.min, info.max])
        u = 'uint' + name.lstrip('uint')
        require(np.dtype(jx.signed_to_unsigned(dt)) == u, 'signed_to_unsigned(%s) is %s', name, jx.signed_to_unsigned(dt))
        y = jx.ensure_unsigned(jnp.asarray(x))
        require(y.dtype == u and y.shape == x.shape, 'ensure_unsigned from %s gives %s', name, y.dtype)
        require(np.array_equal(np.asarray(y), x.view(u)), 'ensure_unsigned changes the bits: %s -> %s', x, y)
        require(int(jx.huge_value(x)) == info.max and int(jx.huge_value(jnp.asarray(x))) == info.max, 'huge_value(%s) is %s', name, jx.huge_value(x))
    else:
        x = jnp.zeros(case['shape'], dt)
        require(float(jx.huge_value(x)) == np.inf, 'huge_value(%s) is %s', name, jx.huge_value(x))
    require(np.dtype(jx.signed_to_unsigned(jnp.int64)) == 'uint64', 'signed_to_unsigned(int64)')
    return dict(labels=[name])


def strat_gamma(shard, nshards):
    from hypothesis import strategies as st
    shapes = [[[], []], [[5], []], [[], [4]], [[3], [3]], [[2, 1], [4]], [[4], [2, 1]], [[0], [1]], [[3, 1, 2], [4, 1]], [[1], [7]], [[2, 3], [2, 3]]]
    return st.fixed_dictionaries(dict(
        shapes=st.sampled_from(shapes), mode=st.sampled_from(['plain', 'jit', 'vmap both', 'vmap first', 'vmap second', 'vmap last axis', 'jit vmap', 'vmap vmap', 'scan']),
        dtype=st.sampled_from(['float32', 'float32', 'python', 'int32', 'float16', 'mixed']), func=st.sampled_from(['gammainccinv', 'ppf']),
        arange=st.sampled_from(['mid', 'small', 'large']), seed=st.integers(0, 2 ** 32 - 1)))


@sub('C21', strategy=strat_gamma, quick=60, thorough=1000, shards=3, rule='arguments of the inverse incomplete gamma and inverse gamma quantile functions with broadcasting shapes and different types, evaluated directly, compiled, vectorized in several ways; compared with scipy in double precision; non-trivial unless the result is empty')
def gamma(case):
    from harness import sut
    jax, jnp = sut.jax, sut.jnp
    rng = ref.rng_of(case['seed'])
    sa, sq = case['shapes']
    mode, dtype = case['mode'], case['dtype']
    if dtype == 'python' and (sa or sq):
        dtype = 'float32'
    if mode != 'plain' and dtype == 'python':
        dtype = 'float32'
    B = 3
    lead_a = {'vmap both': [B], 'vmap first': [B], 'jit vmap': [B], 'scan': [B], 'vmap vmap': [2, B]}.get(mode, [])
    lead_q = {'vmap both': [B], 'vmap second': [B], 'jit vmap': [B], 'vmap vmap': [B], 'scan': [B]}.get(mode, [])
    lo, hi = {'mid': (0.5, 10), 'small': (0.1, 1), 'large': (10, 300)}[case['arange']]
    a = np.array(rng.uniform(lo, hi, lead_a + sa))
    q = np.array(rng.uniform(0.01, 0.99, lead_q + sq))
    if rng.random() < 0.2 and q.size:
        q.flat[0] = rng.choice([0, 1])
    if dtype == 'int32':
        a = np.ceil(a).astype(np.int32)
        q = q.astype(np.float32)
    elif dtype == 'float16':
        a, q = a.astype(np.float16), q.astype(np.float16)
    elif dtype == 'mixed':
        a, q = a.astype(np.float16), q.astype(np.float32)
    elif dtype == 'float32':
        a, q = a.astype(np.float32), q.astype(np.float32)
    res_dtype = np.float16 if dtype == 'float16' else np.float32
    if case['func'] == 'gammainccinv':
        f = sut.jaxext.scipy.special.gammainccinv
        w = special.gammainccinv
    else:
        f = lambda a, q: sut.jaxext.scipy.stats.invgamma.ppf(q, a)
        w = lambda a, q: stats.invgamma.ppf(q, a)
    with np.errstate(all='ignore'):
        wrap = lambda a, q: np.asarray(w(np.asarray(a, np.float64), np.asarray(q, np.float64)))
        if dtype == 'python':
            got, want = f(float(a), float(q)), wrap(a, q)
        else:
            A, Q = jnp.asarray(a), jnp.asarray(q)
            if mode == 'plain':
                got, want = f(A, Q), wrap(a, q)
            elif mode == 'jit':
                got, want = jax.jit(f)(A, Q), wrap(a, q)
            elif mode in ('vmap both', 'jit vmap', 'scan'):
                g = jax.vmap(f)
                if mode == 'jit vmap':
                    g = jax.jit(g)
                if mode == 'scan':
                    g = lambda A, Q: jax.lax.scan(lambda c, x: (c, f(*x)), None, (A, Q))[1]
                got, want = g(A, Q), np.stack([wrap(x, y) for x, y in zip(a, q)])
            elif mode == 'vmap first':
                got, want = jax.vmap(f, (0, None))(A, Q), np.stack([wrap(x, q) for x in a])
            elif mode == 'vmap second':
                got, want = jax.vmap(f, (None, 0), -1)(A, Q), np.stack([wrap(a, y) for y in q], -1)
            elif mode == 'vmap last axis':
                if not sa or not sq or sa[-1] != sq[-1]:
                    got, want = f(A, Q), wrap(a, q)
                else:
                    got = jax.vmap(f, (-1, -1))(A, Q)
                    want = np.stack([wrap(a[..., i], q[..., i]) for i in range(sa[-1])]) if sa[-1] else np.zeros(got.shape)
            else:
                got = jax.vmap(jax.vmap(f), (0, None))(A, Q)
                want = np.stack([np.stack([wrap(x, y) for x, y in zip(r, q)]) for r in a])
    got = np.asarray(got)
    require(got.shape == want.shape, '%s: shape is %s instead of %s', mode, got.shape, want.shape)
    require(got.dtype == res_dtype, 'type is %s', got.dtype)
    rtol = 5e-3 if res_dtype == np.float16 else 1e-4
    info = np.finfo(res_dtype)
    ok = np.isclose(got.astype(np.float64), want, rtol=rtol, atol=float(info.tiny) * 1e3)
    # ranges of the type
    ok |= (np.abs(want) < info.tiny * 1e4) & (np.abs(got) < info.tiny * 1e5)
    ok |= (np.abs(want) > info.max / 1e3) & (got > info.max / 1e4)
    require(ok.all(), '%s: values are %s instead of %s with a=%s q=%s', mode, got.ravel()[:5], want.ravel()[:5], a.ravel()[:5], q.ravel()[:5])
    return dict(nontrivial=want.size > 0, labels=[mode, case['func'], dtype])


def strat_leafdict(shard, nshards):
    from hypothesis import strategies as st
    value = st.one_of(st.none(), st.booleans(), st.integers(-5, 300), st.sampled_from(['float32', 'auto', '']), st.lists(st.integers(0, 3), max_size=2))
    return st.fixed_dictionaries(dict(
        a=st.dictionaries(st.sampled_from(['small_float', 'rb', 'cb', 'x', 'y']), value, max_size=4), b=st.integers(-3, 3), seed=st.integers(0, 1000)))


@sub('C21', strategy=strat_leafdict, quick=20, thorough=200, shards=1, rule='a configuration dictionary inside a state passed through jit, vmap, scan and tree functions; non-trivial if it is not empty')
def leafdict(case):
    from harness import sut
    jax, jnp = sut.jax, sut.jnp
    d = {k: tuple(v) if isinstance(v, list) else v for k, v in case['a'].items()}
    x = np.arange(6.).reshape(2, 3).astype(np.float32)
    L = sut.jaxext.LeafDict
    opt = L(d)
    state = dict(x=jnp.asarray(x), opt=opt)
    seen = []

    def f(s):
        seen.append(s['opt'])
        require(type(s['opt']) is L and dict(s['opt']) == d, 'inside the function the dictionary is %s', s['opt'])
        for k, v in s['opt'].items():
            require(type(v) is type(d[k]), 'inside the function %s has type %s', k, type(v))
        return dict(s, x=s['x'] + len(s['opt']))

    def good(out, want):
        require(type(out['opt']) is L and dict(out['opt']) == d, 'the dictionary became %s', out['opt'])
        require(np.array_equal(np.asarray(out['x']), want), 'array values')
    good(jax.jit(f)(state), x + len(d))
    axes = dict(x=0, opt=None)
    for g in (jax.vmap(f), jax.jit(jax.vmap(f))):
        good(g(state), x + len(d))
    out, _ = jax.lax.scan(lambda s, _: (f(s), None), state, None, 3)
    good(out, x + 3 * len(d))
    good(jax.tree_util.tree_map(lambda a: a * 2, state), x * 2)
    require(len(jax.tree_util.tree_leaves(opt)) == 0, 'the dictionary has leaves')
    # values are static: changing them changes the result of a compiled function
    h = jax.jit(lambda s: s['x'] * (s['opt']['b'] if 'b' in s['opt'] else 100))
    for b in (case['b'], case['b'] + 1, case['b']):
        got = h(dict(x=state['x'], opt=L(d, b=b)))
        require(np.array_equal(np.asarray(got), x * b), 'compiled function used a stale configuration value')
    require(dict(opt) == d, 'the dictionary is modified')
    require(repr(opt) == f'LeafDict({d!r})', 'repr is %r', repr(opt))
    return dict(nontrivial=bool(d))

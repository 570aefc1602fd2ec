"""
Access to the code under test. Import only inside oracles, because importing
this starts jax.
"""

import functools

import numpy as np

from . import boot, ref

bartz = boot.import_sut()

import jax
import jax.numpy as jnp
from jax import random

from bartz import BART, debug, grove, jaxext, mcmcloop, mcmcstep, prepcovars  # noqa

gbart = BART.gbart

STATE_ARRAYS = ('leaf_trees', 'var_trees', 'split_trees', 'resid', 'sigma2', 'grow_prop_count',
                'grow_acc_count', 'prune_prop_count', 'prune_acc_count', 'leaf_indices')


def key_of(*seeds):
    k = random.key(int(seeds[0]) & 0xffffffff)
    for s in seeds[1:]:
        k = random.fold_in(k, int(s) & 0xffffffff)
    return k


def npz(tree):
    """To numpy, leaving keys and other leaves alone."""
    def f(x):
        if isinstance(x, jax.Array) and jnp.issubdtype(x.dtype, jax.dtypes.prng_key):
            return np.asarray(random.key_data(x))
        if isinstance(x, jax.Array):
            a = np.asarray(x)
            return a
        return x
    return jax.tree_util.tree_map(f, tree)


def f64(x):
    return np.asarray(jnp.asarray(x).astype(jnp.float32)).astype(np.float64) if not isinstance(x, np.ndarray) or x.dtype.kind not in 'fiu' else np.asarray(x, np.float64)


def dtype_of(name):
    return {'f32': jnp.float32, 'f16': jnp.float16, 'bf16': jnp.bfloat16, 'f64': jnp.float64}[name]


def min_uint(m):
    for t, lim in ((np.uint8, 2 ** 8), (np.uint16, 2 ** 16), (np.uint32, 2 ** 32)):
        if m < lim:
            return t
    raise ValueError(m)


def same_tree(a, b):
    """Bitwise equality of two pytrees of arrays (nan == nan); returns path of first difference or None."""
    la, ta = jax.tree_util.tree_flatten_with_path(a)
    lb, tb = jax.tree_util.tree_flatten_with_path(b)
    if [p for p, _ in la] != [p for p, _ in lb]:
        return 'structure'
    for (p, x), (_, y) in zip(la, lb):
        x, y = np.asarray(x), np.asarray(y)
        if x.dtype != y.dtype:
            return f'{jax.tree_util.keystr(p)}: dtype {x.dtype} != {y.dtype}'
        if x.shape != y.shape:
            return f'{jax.tree_util.keystr(p)}: shape {x.shape} != {y.shape}'
        if x.tobytes() != y.tobytes():
            if x.dtype.kind == 'f' and np.array_equal(x, y, equal_nan=True):
                continue
            return jax.tree_util.keystr(p)
    return None


def private(obj, name):
    """Attribute that is not part of the documented interface."""
    from .core import Skip
    try:
        return getattr(obj, name)
    except AttributeError:
        raise Skip(f'no attribute {name}')


def main_trace(b):
    return private(b, '_main_trace')


def final_state(b):
    return private(b, '_mcmc_state')

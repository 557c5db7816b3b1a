"""Random number seams: every generator the library can draw from (numpy's global one, Python's, the two inside compiled
code) is put in a state chosen by the simulator. States are either seeded or *crafted*: the first doubles they deliver are a
given list (extreme values, ties with cumulated probabilities)."""
import random

import numpy as np
from numba import _helperlib

_U = 0xFFFFFFFF


def _untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    x = y
    for _ in range(7):
        x = y ^ ((x << 7) & 0x9D2C5680)
    y = x & _U
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & _U


def crafted_key(doubles, seed):
    """MT19937 state whose first outputs are these doubles (at most 312)."""
    ints = []
    for d in doubles[:312]:
        n = min(max(int(d * 2 ** 53), 0), 2 ** 53 - 1)
        ints += [((n >> 26) << 5) & _U, ((n & (2 ** 26 - 1)) << 6) & _U]
    key = list(np.random.RandomState(seed).get_state()[1])
    for i, v in enumerate(ints):
        key[i] = _untemper(v)
    return [int(k) for k in key]


def set_all(seed, doubles=()):
    """Put every generator in the state decided by (seed, doubles)."""
    key = crafted_key(doubles, seed & _U)
    np.random.set_state(("MT19937", np.array(key, dtype=np.uint32), 0, 0, 0.0))
    random.setstate((3, tuple(key) + (0,), None))
    for get in (_helperlib.rnd_get_py_state_ptr, _helperlib.rnd_get_np_state_ptr):
        _helperlib.rnd_set_state(get(), (0, list(key)))


def get_all():
    return (np.random.get_state(), random.getstate(),
            _helperlib.rnd_get_state(_helperlib.rnd_get_py_state_ptr()), _helperlib.rnd_get_state(_helperlib.rnd_get_np_state_ptr()))


def restore(st):
    np.random.set_state(st[0])
    random.setstate(st[1])
    _helperlib.rnd_set_state(_helperlib.rnd_get_py_state_ptr(), st[2])
    _helperlib.rnd_set_state(_helperlib.rnd_get_np_state_ptr(), st[3])


def scramble(rng, n=None):
    """Draw from the generators as a program would in between."""
    for _ in range(n if n is not None else rng.randint(1, 5)):
        k = rng.randint(0, 4)
        if k == 0:
            np.random.seed(rng.randrange(2 ** 31))
        elif k == 1:
            np.random.random(rng.randint(1, 1000))
        elif k == 2:
            random.seed(rng.random())
        elif k == 3:
            np.random.normal(size=rng.randint(1, 3))
        else:
            s = rng.randrange(2 ** 31)
            for get in (_helperlib.rnd_get_py_state_ptr, _helperlib.rnd_get_np_state_ptr):
                _helperlib.rnd_seed(get(), s)


EXTREMES = [0.0, 2.0 ** -53, 2.0 ** -52, 1 - 2.0 ** -53, 1 - 2.0 ** -52, 0.5, 0.5 - 2.0 ** -53, 0.25, 1e-9, 1 - 1e-9, 1e-300, 0.1, 0.9]

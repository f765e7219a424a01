"""Shared generators and reference models (independent of the code under test)."""
import numpy as np


def cn(rng, *shape):
    return (rng.standard_normal(shape) + 1j * rng.standard_normal(shape)) / np.sqrt(2)


def arr(seed, *shape):
    """A complex test array fully determined by a case's integer seed."""
    return cn(np.random.Generator(np.random.PCG64(int(seed))), *shape)


def rint(rng, lo, hi):
    """integer in [lo, hi]"""
    return int(rng.integers(lo, hi + 1))


def pick(rng, options):
    return options[int(rng.integers(len(options)))]


def seed(rng):
    return int(rng.integers(1 << 31))


def layout(rng, max_blocks=4, max_len=20, max_gap=9, lead=True):
    """Random offsets and lengths of ordered, non-overlapping blocks."""
    n = rint(rng, 1, max_blocks)
    out, pos = [], (rint(rng, 0, max_gap) if lead else 0)
    for _ in range(n):
        ln = rint(rng, 1, max_len)
        out.append([pos, ln])
        pos += ln + rint(rng, 0, max_gap)
    return out


def dense_of(samples, lay, total=None):
    """Scatter consecutive columns of samples into their block positions."""
    total = lay[-1][0] + lay[-1][1] if total is None else total
    out = np.zeros((samples.shape[0], total), complex)
    k = 0
    for off, ln in lay:
        out[:, off:off + ln] = samples[:, k:k + ln]
        k += ln
    return out


def trim(a):
    """Remove trailing all-zero columns."""
    nz = np.flatnonzero(np.any(a != 0, axis=0))
    return a[:, : (nz[-1] + 1 if len(nz) else 0)]


def nd(signal):
    """Dense plain array of a signal model, through the public conversion."""
    return np.array(signal.to_dense().view(np.ndarray))


def snapshot(signal):
    """Everything observable about a signal, for detecting modification."""
    return (nd(signal).tobytes(), tuple(signal.shape), signal.sampling_rate, signal.carrier_frequency,
            signal.noise_power, signal.delay, tuple(int(b.offset) for b in signal.blocks),
            tuple(b.shape for b in signal.blocks))

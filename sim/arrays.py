"""Drawn arrays: dtypes, shapes, memory layouts."""
import numpy as np

GOOD = ['f8', 'f4', 'i8', 'i4']
ODD = ['i2', 'u1', 'f2', '?', 'c16', 'u8', '>f8', '>i4']


def values(r, shape, dt):
    dt = np.dtype(dt)
    if dt.kind == 'f':
        a = r.normal(size=shape) * 10.0 ** r.randint(-3, 4)
        a = np.asarray(a).astype(dt)
        if a.size and r.rand() < 0.2:
            a.flat[r.randint(a.size)] = [np.nan, np.inf, -np.inf,
                                         -0.0][r.randint(4)]
        return a
    if dt.kind == 'c':
        return np.asarray(r.normal(size=shape) +
                          1j * r.normal(size=shape)).astype(dt)
    if dt.kind == '?' or dt.kind == 'b':
        return np.asarray(r.rand(*shape) < 0.5)
    i = np.iinfo(dt)
    a = r.randint(max(i.min, -2 ** 31), min(i.max, 2 ** 31 - 1), size=shape)
    a = np.asarray(a).astype(dt)
    if a.size and r.rand() < 0.3:
        a.flat[r.randint(a.size)] = i.max
    return a


def layout(a, kind):
    """The same values, held differently in memory."""
    if a.ndim == 0 and kind != 'ro':
        return a.copy()
    if kind == 'F':
        return np.asfortranarray(a)
    if kind == 'step':
        big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == 'neg':
        return np.ascontiguousarray(a[::-1])[::-1]
    if kind == 'T':
        return np.ascontiguousarray(a.T).T
    if kind == 'offset':
        big = np.zeros((a.shape[0] + 2,) + a.shape[1:], a.dtype)
        big[1:-1] = a
        return big[1:-1]
    if kind == 'ro':
        b = a.copy()
        b.flags.writeable = False
        return b
    return a.copy()


LAYOUTS = ['C', 'F', 'step', 'neg', 'T', 'offset', 'ro']


def same(a, b):
    """Bit for bit, shape and dtype included."""
    return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and
            a.shape == b.shape and a.dtype == b.dtype and
            np.ascontiguousarray(a).tobytes() ==
            np.ascontiguousarray(b).tobytes())


def show(a):
    if not isinstance(a, np.ndarray):
        return repr(a)[:80]
    return '%s%s %s' % (a.dtype, a.shape, np.array2string(
        a.ravel()[:12], threshold=12).replace('\n', ' '))

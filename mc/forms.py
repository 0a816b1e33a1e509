"""Accepted forms of observations and coordinates."""
import numpy as np
import pandas as pd


def forms(x, ints=False):
    """(name, object) for every accepted form of the n x d points x"""
    x = np.asarray(x, float)
    n, d = x.shape
    idx = ["r%03d" % ((n - i) * 7 % 11) for i in range(n)]      # neither sorted nor unique
    yield "array2d", x.copy()
    yield "list2d", [list(map(float, r)) for r in x]
    yield "fortran", np.array(x, order="F")
    yield "strided", np.repeat(x, 2, axis=0)[::2]
    yield "frame", pd.DataFrame(x.copy(), index=idx, columns=["c%d" % (d - i) for i in range(d)])
    yield "frame-intcols", pd.DataFrame(x.copy(), columns=list(range(d))[::-1], index=range(5, 5 - n, -1))
    if n and np.all(x == np.round(x)) and np.all(np.abs(x) < 1e9):
        yield "int-array", x.astype(np.int64)
        yield "int-list", [[int(v) for v in r] for r in x]
        yield "int-frame", pd.DataFrame(x.astype(int))
        if np.all(np.abs(x) < 100):
            yield "int8", x.astype(np.int8)
            if np.all(x >= 0):
                yield "uint8", x.astype(np.uint8)
            yield "mixed-list", [[int(v) if (i + j) % 2 else float(v) for j, v in enumerate(r)] for i, r in enumerate(x)]
    if d == 1:
        c = x[:, 0]
        yield "array1d", c.copy()
        yield "list1d", [float(v) for v in c]
        yield "series", pd.Series(c.copy())
        yield "named-series", pd.Series(c.copy(), name="z", index=idx)
        yield "list-npfloat", list(c)
        if n == 1:
            yield "scalar", float(c[0])
            yield "npscalar", c[0]
            if c[0] == round(c[0]) and abs(c[0]) < 1e9:
                yield "int", int(c[0])
                yield "npint", np.int64(c[0])
                yield "npint32", np.int32(c[0])


def dims(D, full=True):
    """(form, list of coordinates) for every accepted way of naming coordinates"""
    yield None, list(range(D))
    for i in range(D):
        yield i, [i]
        yield np.int64(i), [i]
        yield [i], [i]
        yield np.array([i]), [i]
    for i in range(D):
        for j in range(D):
            if i != j:
                yield [i, j], [i, j]
                if full:
                    yield np.array([i, j]), [i, j]
    if D == 3:
        for t in ([0, 1, 2], [2, 0, 1], np.array([1, 2, 0])):
            yield t, list(t)


def same(a, b):
    """equal objects, forms included"""
    if isinstance(b, (pd.DataFrame, pd.Series)):
        return type(a) is type(b) and a.equals(b)
    if isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b

"""Persistent partner process in which the kernels run interpreted (the jit decorators of
numba are switched off before the package is imported; NUMBA_DISABLE_JIT itself breaks numba's ufuncs): pickled requests on stdin, pickled answers on stdout."""
import os
import pickle
import struct
import subprocess
import sys


class Partner:
    def __init__(self):
        env = dict(os.environ, NUMBA_BOUNDSCHECK="0", PYTHONPATH=os.pathsep.join(
            [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))] + [p for p in [os.environ.get("PYTHONPATH")] if p]))
        self.p = subprocess.Popen([sys.executable, "-m", "vlib.interp"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def ask(self, c):
        b = pickle.dumps(c)
        self.p.stdin.write(struct.pack("<q", len(b)) + b)
        self.p.stdin.flush()
        n = struct.unpack("<q", self.p.stdout.read(8))[0]
        return pickle.loads(self.p.stdout.read(n))


def history(c, noise=None):
    """snapshots after every call of the history of configuration c"""
    from vlib import zoo

    X, y, w, Z = zoo.data(c)
    if noise is not None:
        X, y = noise(X), noise(y)
    e = zoo.build(c)
    out = []
    for k, s in enumerate(zoo.batches(c)):
        zoo.feed(e, c, X, y, w, s, k == 0)
        out.append(zoo.snapshot(e, Z))
    return out


def serve():
    import warnings

    import numba
    import numpy as np

    def plain(*a, **k):
        return a[0] if a and callable(a[0]) else lambda f: f

    old = numba.njit, numba.jit
    numba.njit = numba.jit = plain
    import ondil  # noqa
    import ondil.estimators  # noqa

    numba.njit, numba.jit = old

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # anything printed must not end up in the protocol
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        c = pickle.loads(inp.read(struct.unpack("<q", h)[0]))
        try:
            r = ("ok", history(c))
        except Exception as ex:  # noqa
            r = ("raised", f"{type(ex).__name__}: {ex}")
        b = pickle.dumps(r)
        out.write(struct.pack("<q", len(b)) + b)
        out.flush()


if __name__ == "__main__":
    serve()

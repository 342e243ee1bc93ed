import numpy as np

from vlib.gen import FORGETS, disc, partition, pick, slices, weights


class Check:
    ID = "G01"
    RULE = ("random streams (n, J, weights incl. zeros, forget) cut into random batches incl. single rows; after every batch "
            "all three incremental Gramians are compared with a float64 reference of the discounted weighted sum; "
            "non-trivial = distinct (forget, weight kind, batch-size set, dtype/layout) combinations with at least one update")
    QUICK, THOROUGH = 4000, 150000
    BUDGET = (20, 500)
    MIN_CASES = 100

    def warmup(self):
        import ondil.gram as g

        X = np.ones((4, 2)) + np.eye(4, 2)
        y = np.ones(4)
        B = np.zeros((4, 4))
        B[:, ::2] = X
        for Z in (X,):
            w = np.ones(4)
            G = g.init_gram(Z, w, 0.1)
            H = g.init_y_gram(Z, y, w, 0.1)
            I = g.init_inverted_gram(Z, w, 0.1)
            for k in (1, 4):
                for v in (w[:k], 1.0):
                    if k == 1 and not np.ndim(v):
                        continue
                    g.update_gram(G, Z[:k], forget=0.1, w=v)
                    g.update_y_gram(H, Z[:k], y[:k], forget=0.1, w=v)
                    g.update_inverted_gram(I, Z[:k], forget=0.1, w=v)
        g.init_forget_vector(0.1, 4)

    def case(self, rng, i):
        J = int(rng.integers(1, 7))
        n0 = int(rng.integers(J + 1, J + 25))
        n = n0 + int(rng.integers(1, 60 if i % 10 else 400))
        if i % 40 == 11:  # many columns
            J = int(rng.integers(10, 33))
            n0 = int(rng.integers(J + 1, J + 25))
            n = n0 + int(rng.integers(1, 60))
        elif i % 40 == 31:  # long batches
            n = n0 + int(rng.integers(500, 2500))
        kind, w = weights(rng, n)
        if kind == "none":
            w = np.ones(n)
        w[:n0] = np.maximum(w[:n0], 0.05)  # the initial Gramian has to be invertible
        return dict(J=J, n0=n0, n=n, forget=float(pick(rng, FORGETS)), wkind=kind, w=w,
                    X=rng.normal(size=(n, J)) * 10 ** rng.uniform(-1, 1, J) + rng.uniform(-1, 1, J) * (i % 3),
                    y=rng.normal(size=n) * 3, cuts=partition(rng, n0, n) if n - n0 < 500 else [n0, n0 + 1, n - int(rng.integers(1, 90)), n],
                    layout="C", const=bool(i % 7 == 0))

    def run(self, c, mon):
        import ondil.gram as g

        X, y, w, f, n0 = c["X"], c["y"], c["w"], c["forget"], c["n0"]
        if c["const"]:  # constant weights within each batch: scalar weight == vector weight
            for s in slices(c["cuts"]):
                w[s] = w[s.start]

        def lay(A):
            if c["layout"] == "F":
                return np.asfortranarray(A)
            if c["layout"] == "slice":
                B = np.zeros((A.shape[0], A.shape[1] * 2))
                B[:, ::2] = A
                return B[:, ::2]
            return np.ascontiguousarray(A)

        n = c["n"]
        for size in {1, 2, n0, n}:
            fv = g.init_forget_vector(f, size)
            mon.close("forget vector", fv, disc(f, size), rtol=1e-9, atol=1e-300)
        X0 = lay(X[:n0])
        with mon.sut("init"):
            G = g.init_gram(X0, w[:n0], f)
            H = g.init_y_gram(X0, y[:n0], w[:n0], f)
        try:
            I = g.init_inverted_gram(X0, w[:n0], f)
        except ValueError:
            I = None  # declared not invertible
        refG = lambda m: (X[:m] * (w[:m] * disc(f, m))[:, None]).T @ X[:m]
        refH = lambda m: ((X[:m] * (w[:m] * disc(f, m))[:, None]).T @ y[:m])[:, None]
        mass = lambda m: (np.abs(X[:m]) * (w[:m] * disc(f, m))[:, None]).T @ np.abs(np.c_[X[:m], y[:m]])
        if I is None:
            mon.event("singular start")
            # refusing is only right if the Gramian is numerically close to singular
            mon.true("refused only if ill-conditioned", np.linalg.cond(refG(n0)) > 1e6)

        def verify(m, k):
            S = mass(m)
            mon.close("x-gram", G, refG(m), rtol=1e-9, scale=S[:, :-1] + 1e-300, detail=f"after {m} rows (batch {k})")
            mon.close("y-gram", H, refH(m), rtol=1e-9, scale=S[:, -1:] + 1e-300, detail=f"after {m} rows (batch {k})")
            if I is not None:
                # an incremental inverse is only meaningful while the problem is well-conditioned
                R = refG(m)
                sc = 1 / np.sqrt(np.diag(R))
                cond = np.linalg.cond(R * np.outer(sc, sc))
                worst[0] = max(worst[0], cond) if np.isfinite(cond) else np.inf
                if worst[0] < 1e5 and (f == 0 or (m - n0) * -np.log1p(-f) < 8):
                    mon.event("inverse checked")
                    E = I @ R
                    mon.close("inverted gram", E * np.outer(1 / sc, sc),
                              np.eye(len(R)), atol=1e-7 + 1e-12 * worst[0] ** 1.5, rtol=0, detail=f"after {m} rows (batch {k})")

        worst = [1.0]
        verify(n0, 0)
        for s in slices(c["cuts"]):
            k = s.stop - s.start
            Xb = lay(X[s])
            wb = w[s]
            if c["const"] and k > 1:
                wb = float(w[s.start])
                mon.event("scalar weight batch")
            keep = (Xb.copy(), np.copy(wb), G.copy(), H.copy())
            with mon.sut("update"):
                G1 = g.update_gram(G, Xb, forget=f, w=wb)
                H1 = g.update_y_gram(H, Xb, y[s], forget=f, w=wb)
                I1 = g.update_inverted_gram(I, Xb, forget=f, w=wb) if I is not None else None
            mon.same("inputs unchanged", (Xb, np.asarray(wb), G, H), (keep[0], np.asarray(keep[1]), keep[2], keep[3]))
            G, H, I = G1, H1, I1
            mon.event("update batch", 1)
            mon.event("update single" if k == 1 else "update multi")
            if k == 1 or s.stop == n or len(c["cuts"]) < 30 or mon.evals % 3 == 0:
                verify(s.stop, k)
        sizes = sorted({min(s.stop - s.start, 4) for s in slices(c["cuts"])})
        mon.sig(f, c["wkind"], sizes, c["layout"], c["J"], c["const"])

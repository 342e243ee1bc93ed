import numpy as np

from vlib.gen import nonzero_batches, FORGETS, design, disc, partition, pick, slices, sl, weights


class Check:
    ID = "S02"
    RULE = ("random streams, partitions, weights (incl. zeros), forget factors and column selections; moments after every batch vs. "
            "two-pass discounted weighted reference; non-trivial = distinct (selection kind, forget, weight kind, batch sizes)")
    QUICK, THOROUGH = 4000, 150000
    BUDGET = (25, 500)
    MIN_CASES = 100

    def warmup(self):
        from ondil.gram import init_forget_vector

        init_forget_vector(0.1, 3)

    def case(self, rng, i):
        J = int(rng.integers(1, 6))
        n0 = int(rng.integers(2, 30))
        n = n0 + int(rng.integers(1, 40 if i % 10 else 300))
        kind, w = weights(rng, n)
        if w is not None:
            w[:2] = np.maximum(w[:2], 0.3)
        sel = pick(rng, ["true", "true", "false", "mask", "index", "index_perm"])
        if sel == "mask":
            to = rng.uniform(size=J) < 0.6
            to[int(rng.integers(J))] = True
        elif sel == "index":
            to = np.sort(rng.permutation(J)[: int(rng.integers(1, J + 1))])
        elif sel == "index_perm":
            to = rng.permutation(J)[: int(rng.integers(1, J + 1))]
        else:
            to = sel == "true"
        X = design(rng, n, J) if n >= 3 else rng.normal(size=(n, J))
        return dict(J=J, n0=n0, n=n, w=w, wkind=kind, forget=float(pick(rng, FORGETS)), sel=sel, to=to, X=X,
                    Z=rng.normal(size=(5, J)) * 3, cuts=partition(rng, n0, n), refit=bool(i % 5 == 0), partial=bool(i % 4 == 1))

    def run(self, c, mon):
        from ondil.scaler import OnlineScaler

        X, w, f, to, J = c["X"], nonzero_batches(c["w"], c["cuts"]), c["forget"], c["to"], c["J"]
        keep_to = to.copy() if isinstance(to, np.ndarray) else to
        keepX = X.copy()
        cols = np.arange(J)[to] if isinstance(to, np.ndarray) else np.arange(J) if to else np.arange(0)
        s = OnlineScaler(forget=f, to_scale=to)
        n0 = c["n0"]
        if c["refit"]:  # an earlier life must not matter
            s.fit(X[::-1] * 2 + 1)
            s.update(X[:3])
        with mon.sut("fit"):
            if c["partial"] and not c["refit"]:
                s.partial_fit(X[:n0], None, sample_weight=sl(w, slice(0, n0)))
            else:
                s.fit(X[:n0], sample_weight=sl(w, slice(0, n0)))

        def verify(m):
            ww = (np.ones(m) if w is None else w[:m])
            d = ww * disc(f, m)
            mon.close("n_observations", s.n_observations_, ww.sum(), rtol=1e-9)
            mu = (d[:, None] * X[:m]).sum(0) / d.sum()
            var = (d[:, None] * (X[:m] - mu) ** 2).sum(0) / d.sum()
            sd = np.sqrt(var)
            with mon.sut("transform"):
                Z = s.transform(c["Z"])
                back = s.inverse_transform(Z)
                back2 = s.transform(s.inverse_transform(c["Z"]))
            if not len(cols):
                mon.true("not scaled: unit standard deviation", np.all(np.asarray(s.std_) == 1))
                mon.same("not scaled at all", Z, c["Z"])
                mon.same("not scaled at all (inverse)", back, c["Z"])
                return
            # scale of rounding: the largest magnitude seen so far
            mag = np.abs(X[:m]).max(0)[cols] + 1e-12
            mon.close("mean", s.mean_, mu[cols], rtol=1e-8, scale=mag, detail=f"m={m}")
            ok = var[cols] > 1e-7 * mag**2
            if not ok.all():
                mon.event("degenerate variance")
                return
            mon.close("variance", s.var_, var[cols], rtol=1e-6, scale=1e-4 * mag**2, detail=f"m={m}")
            mon.close("std", s.std_, sd[cols], rtol=1e-6, scale=1e-4 * mag)
            want = c["Z"].copy()
            want[:, cols] = (want[:, cols] - mu[cols]) / sd[cols]
            mon.close("transform", Z[:, cols], want[:, cols], rtol=1e-5, atol=1e-5)
            rest = np.setdiff1d(np.arange(J), cols)
            mon.same("unselected columns untouched", Z[:, rest], c["Z"][:, rest])
            mon.close("inverse(transform)", back, c["Z"], rtol=1e-8, scale=np.abs(c["Z"]).max() + np.abs(X[:m]).max())
            mon.close("transform(inverse)", back2[:, cols], c["Z"][:, cols], rtol=1e-8, scale=np.max(mag / sd[cols]) + 10)
            mon.close("standardises the history", np.sqrt(np.maximum((d[:, None] * s.transform(X[:m])[:, cols] ** 2).sum(0) / d.sum(), 0)),
                      np.ones(len(cols)), rtol=1e-4)

        verify(n0)
        for k, b in enumerate(slices(c["cuts"])):
            with mon.sut("update"):
                if c["partial"] and k % 2:
                    s.partial_fit(X[b], None, sample_weight=sl(w, b))
                else:
                    s.update(X[b], sample_weight=sl(w, b))
            mon.event("update single" if b.stop - b.start == 1 else "update multi")
            if k < 6 or b.stop == c["n"]:
                verify(b.stop)
        mon.same("caller's data untouched", (X, s.forget), (keepX, f))
        if isinstance(to, np.ndarray):
            mon.same("selection untouched", s.to_scale, keep_to)
        mon.sig(c["sel"], f, c["wkind"], sorted({min(b.stop - b.start, 3) for b in slices(c["cuts"])}), len(cols), J)

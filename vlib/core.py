"""Runner shared by all monitors: workload scheduling, verdicts, evidence, replay.

A check module (checks/<id>.py) provides a class `Check` with

    ID, RULE            property id, how cases are generated / what counts as non-trivial
    QUICK, THOROUGH     number of cases per tier
    BUDGET              wall-clock caps (s) after which no new case is started
    warmup()            optional: triggers JIT compilation before forking
    case(rng, i)        -> JSON-able description of one workload (deterministic in the seed)
    run(c, mon)         drives the real code and feeds the monitors in `mon`

Verdicts: exit 0 held, exit 1 violated (VIOLATION line), exit 3 inconclusive / harness error.
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    pass


class Skip(Exception):
    """The workload turned out not to be a valid / decidable instance."""


class Monitor:
    def __init__(self, check_id):
        self.id = check_id
        self.events = collections.Counter()
        self.evals = 0
        self.violations = []
        self.signature = []
        self.known = []

    # --- observation -----------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] += n

    def sig(self, *parts):
        self.signature.append(tuple(str(p) for p in parts))

    # --- verdicts ----------------------------------------------------------
    def fail(self, what, detail="", key=None):
        self.violations.append({"what": what, "detail": str(detail)[:1500], "key": key})
        if len(self.violations) >= 5:
            raise Violation(what)

    def true(self, what, cond, detail="", key=None):
        self.evals += 1
        self.events["monitor:" + what] += 1
        if not bool(cond):
            self.fail(what, detail() if callable(detail) else detail, key)
            return False
        return True

    def close(self, what, got, want, rtol=1e-9, atol=0.0, scale=None, key=None, detail=""):
        """got ~ want elementwise, tolerance atol + rtol*max(|want|, scale). NaN in
        `got` where `want` is finite is a violation; shapes have to agree."""
        import numpy as np

        self.evals += 1
        self.events["monitor:" + what] += 1
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(what, f"shape {got.shape} != {want.shape} {detail}", key)
            return False
        s = np.abs(want) if scale is None else np.maximum(np.abs(want), scale)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got - want) <= atol + rtol * s)
            bad &= ~((got == want) | (np.isnan(got) & np.isnan(want)))
        if np.any(bad):
            k = np.argmax(bad.ravel())
            self.fail(
                what,
                f"{detail} first bad index {k}: got {got.ravel()[k]!r}, want {want.ravel()[k]!r} "
                f"({int(bad.sum())}/{bad.size} bad, rtol={rtol}, atol={atol}); "
                f"got={np.array2string(got.ravel()[:8], precision=12)} "
                f"want={np.array2string(want.ravel()[:8], precision=12)}",
                key,
            )
            return False
        return True

    def same(self, what, got, want, key=None, detail=""):
        """bitwise / structural identity (NaN equal to NaN)"""
        self.evals += 1
        self.events["monitor:" + what] += 1
        if not deep_equal(got, want):
            self.fail(what, f"{detail} got={short(got)} want={short(want)}", key)
            return False
        return True

    @contextlib.contextmanager
    def sut(self, what="call", key=None):
        """Code under test runs inside; any exception there is a violation."""
        self.events["sut:" + what] += 1
        try:
            yield
        except (Violation, Skip):
            raise
        except Exception as e:  # noqa
            tb = traceback.format_exc(limit=-4)
            self.fail(f"{what}: raised {type(e).__name__}", f"{e}\n{tb}", key)
            raise Violation(what)

    def raises(self, what, exc, fn, key=None):
        """fn has to raise an instance of exc"""
        self.evals += 1
        self.events["monitor:" + what] += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:  # noqa
            self.fail(what, f"raised {type(e).__name__}: {e}", key)
            return False
        self.fail(what, "did not raise", key)
        return False


def short(x, n=300):
    return repr(x)[:n]


def deep_equal(a, b):
    import numpy as np

    if type(a) is not type(b) and not (
        np.isscalar(a) and np.isscalar(b)
    ):
        return False
    if isinstance(a, dict):
        return list(a.keys()) == list(b.keys()) and all(deep_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return a.shape == b.shape and all(deep_equal(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if a is b:
        return True
    try:
        if a == b:
            return True
        return a != a and b != b
    except Exception:
        return False


# ---------------------------------------------------------------------------


def load(check_id):
    sys.path.insert(0, ROOT) if ROOT not in sys.path else None
    return importlib.import_module(f"checks.{check_id}").Check()


def case_rng(check_id, seed, i):
    import numpy as np

    h = int(hashlib.sha256(check_id.encode()).hexdigest()[:8], 16)
    return np.random.default_rng([int(seed), h, int(i)])


def run_case(check, seed, i, want_case=False):
    import numpy as np

    mon = Monitor(check.ID)
    rng = case_rng(check.ID, seed, i)
    t = time.time()
    status = "ok"
    c = None
    out = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            c = check.case(rng, i)
            np.random.seed(int(rng.integers(2**31)))
            check.run(c, mon)
    except Violation:
        pass
    except Skip as e:
        status = "skip"
        mon.events["skip:" + str(e)] += 1
    except Exception:  # noqa
        tb = traceback.extract_tb(sys.exc_info()[2])
        txt = traceback.format_exc(limit=-8)
        if any(f.filename.startswith(REPO + "/src") for f in tb):
            mon.violations.append({"what": "raised in code under test", "detail": txt[-1500:], "key": None})
        else:
            status = "error"
            mon.events["harness-error"] += 1
            return dict(i=i, status="error", detail=txt, dt=time.time() - t, evals=0, events={}, viol=[], sig=[], case=None)
    return dict(
        i=i,
        status=status,
        dt=time.time() - t,
        evals=mon.evals,
        events=dict(mon.events),
        viol=mon.violations,
        sig=mon.signature or [("case",)],
        case=describe(c) if (want_case or mon.violations) else None,
    )


def describe(c):
    import numpy as np

    def f(x):
        if isinstance(x, np.ndarray):
            return {"shape": list(x.shape), "head": np.asarray(x).ravel()[:4].tolist()}
        if isinstance(x, dict):
            return {str(k): f(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [f(v) for v in x[:8]]
        if isinstance(x, (int, float, str, bool)) or x is None:
            return x
        if isinstance(x, np.generic):
            return x.item()
        return repr(x)[:120]

    return f(c)


def _worker(check, seed, conn):
    try:
        while True:
            i = conn.recv()
            if i is None:
                return
            conn.send(run_case(check, seed, i, want_case=(i < 3)))
    except (EOFError, KeyboardInterrupt):
        return


FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))  # development only: stop at the first violation


class Pool:
    """Fork pool with a per-case watchdog."""

    def __init__(self, check, seed, n):
        self.check, self.seed = check, seed
        self.ctx = mp.get_context("fork")
        self.slots = [self._spawn() for _ in range(n)]

    def _spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(self.check, self.seed, b), daemon=True)
        p.start()
        b.close()
        return {"p": p, "c": a, "i": None, "t": None}

    def run(self, total, budget, watchdog, floor=0):
        t0 = time.time()
        nxt = 0
        results, hung, dead = [], [], []
        while True:
            busy = False
            for s in self.slots:
                if s["i"] is not None:
                    try:
                        if s["c"].poll(0):
                            results.append(s["c"].recv())
                            s["i"] = None
                            if FAILFAST and any(not str(v.get("key")).endswith("opposite sign") for v in results[-1]["viol"]):
                                total = 0
                    except EOFError:
                        dead.append(s["i"])
                        s.update(self._spawn())
                    else:
                        if s["i"] is not None and time.time() - s["t"] > watchdog:
                            hung.append(s["i"])
                            s["p"].kill()
                            s.update(self._spawn())
                late = time.time() - t0
                # a slow machine still gets through the minimum
                stop = nxt >= total or (late > budget and (nxt >= floor or late > 8 * budget)) or len(hung) + len(dead) >= 3
                if s["i"] is None and not stop:
                    s["c"].send(nxt)
                    s["i"], s["t"] = nxt, time.time()
                    nxt += 1
                if s["i"] is not None:
                    busy = True
            if not busy:
                break
            mp.connection.wait([s["c"] for s in self.slots if s["i"] is not None], timeout=0.5)
        for s in self.slots:
            with contextlib.suppress(Exception):
                s["c"].send(None)
        for s in self.slots:
            s["p"].join(timeout=2)
            if s["p"].is_alive():
                s["p"].kill()
        return results, hung, dead


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        return [k for k in json.load(open(p)) if k.get("status") == "known"]
    return []


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()

    import ondil

    if not os.path.realpath(ondil.__file__).startswith(os.path.realpath(REPO) + "/"):
        print(f"INCONCLUSIVE ondil imported from {ondil.__file__}, not from {REPO}")
        return 3
    check = load(a.id)
    if a.replay or a.case is not None:
        if a.replay:
            r = json.load(open(a.replay))
            seed, i = r["seed"], r["case_index"]
        else:
            i = a.case
        res = run_case(check, seed, i, want_case=True)
        print(json.dumps(res, indent=1, default=str))
        return 1 if res["viol"] else (3 if res["status"] == "error" else 0)

    total = check.THOROUGH if tier == "thorough" else check.QUICK
    budget = getattr(check, "BUDGET", (60, 600))[tier == "thorough"]
    floor = 0
    if tier == "quick":
        budget, floor = 2 * budget, int(1.5 * getattr(check, "MIN_CASES", 10))
    watchdog = getattr(check, "WATCHDOG", 200)
    if hasattr(check, "warmup"):
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            try:
                check.warmup()
            except Exception:  # the cases will report it
                pass
    t_warm = time.time() - t0
    results, hung, dead = Pool(check, seed, min(a.jobs, total)).run(total, budget, watchdog, floor)
    results.sort(key=lambda r: r["i"])

    known = {k["key"]: k for k in known_findings() if k["property"] == a.id}
    events = collections.Counter()
    sigs = set()
    samples, viols, errors, seen_known = [], [], [], {}
    evals = skipped = 0
    for r in results:
        events.update(r["events"])
        evals += r["evals"]
        if r["status"] == "error":
            errors.append(r)
            continue
        if r["status"] == "skip":
            skipped += 1
        else:
            sigs.update(map(tuple, r["sig"]))
        if r["case"] is not None and len(samples) < 3 and r["status"] == "ok":
            samples.append({"case_index": r["i"], "case": r["case"], "signature": [list(s) for s in r["sig"][:3]]})
        for v in r["viol"]:
            if v.get("key") in known:
                seen_known.setdefault(v["key"], v)
            else:
                viols.append((r, v))
    if hung and getattr(check, "HANG_IS_VIOLATION", False):
        for i in hung:
            viols.append(({"i": i, "case": None}, {"what": f"no termination within {watchdog}s", "detail": "", "key": None}))
        hung = []
    if hasattr(check, "summary") and not viols:
        # whole-run monitors (rates)
        for v in check.summary(results, events) or []:
            viols.append(({"i": -1, "case": None}, v))

    ok_cases = len(results) - skipped - len(errors)
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(sigs),
        "rule": check.RULE,
        "samples": samples,
        "monitor_evaluations": evals,
        "cases_skipped": skipped,
        "cases_planned": total,
        "events": dict(sorted(events.items())),
        "warmup_s": round(t_warm, 2),
    }
    ev = {
        "property": a.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{a.id}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, v in seen_known.items():
        print(f"KNOWN-FINDING: property={a.id} {known[k]['what']}")
    if viols:
        r, v = viols[0]
        path = os.path.join(ROOT, "evidence", "replay", f"{a.id}-seed{seed}-case{r['i']}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": a.id, "seed": seed, "tier": tier, "case_index": r["i"], "case": r["case"],
                 "violations": [x for q, x in viols if q["i"] == r["i"]]}, f, indent=1, default=str)
        for q, x in viols[:6]:
            print(f"  case {q['i']}: {x['what']}: {x['detail'][:600]}")
        print(f"{len(viols)} violations in {len({q['i'] for q, _ in viols})} of {len(results)} cases")
        print(f"VIOLATION property={a.id} replay={path}")
        return 1
    if errors:
        print("INCONCLUSIVE harness error:\n" + errors[0]["detail"])
        return 3
    if hung or dead:
        print(f"INCONCLUSIVE hung cases {hung}, dead workers on cases {dead}")
        return 3
    need = max(3, min(total, getattr(check, "MIN_CASES", 10)))
    if ok_cases < need or evals == 0:
        print(f"INCONCLUSIVE only {ok_cases} decidable cases ({skipped} skipped), {evals} monitor evaluations")
        return 3
    print(
        f"HELD property={a.id} tier={tier} seed={seed} cases={len(results)} skipped={skipped} "
        f"distinct={len(sigs)} monitor_evaluations={evals} wall={time.time()-t0:.1f}s (warmup {t_warm:.1f}s)"
    )
    return 0

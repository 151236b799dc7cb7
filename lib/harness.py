"""Worker-side core: cases, monitors, verdicts.

A property is a subclass of Prop.  Its cases are JSON values made from a seeded generator; run()
drives the real package and reports what it saw to the monitor `m`.  The monitor raises Violation
on the first observation that contradicts the property.
"""
import contextlib, hashlib, io, json, os, sys, time, traceback, warnings, zlib

import numpy as np


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.detail = detail


class KnownFinding(Exception):
    """raised by a case dedicated to a listed finding, when the finding still shows"""


class Skip(Exception):
    """the generated case is outside the property's domain"""


class Mon:
    def __init__(self):
        self.counts = {}
        self.nontrivial = False
        self.mark = 0
        self.case = None

    def ev(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    # ------------------------------------------------------------ oracles
    def check(self, cond, msg, **detail):
        self.ev("checks")
        if not cond:
            raise Violation(msg, **detail)

    def close(self, a, b, msg, tol=1e-7, scale=None):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        self.ev("checks")
        if a.shape != b.shape:
            raise Violation(f"{msg}: shapes {a.shape} and {b.shape}")
        if a.size == 0:
            return
        if not (np.isfinite(a).all() and np.isfinite(b).all()):
            raise Violation(f"{msg}: not finite", got=a.tolist(), expected=b.tolist())
        s = float(np.abs(b).max()) if scale is None else scale
        d = np.abs(a - b)
        if d.max() > tol * max(s, 1e-9):
            slack = conditioning(self.case)
            if d.max() <= tol * max(s, 1e-9) + slack or slack > 1e-3 * s:
                return self.ev("ill_conditioned")
            i = np.unravel_index(int(d.argmax()), d.shape) if d.ndim else ()
            raise Violation(f"{msg}: differs by {d.max():.6g} at {tuple(int(x) for x in i)}",
                            got=a.tolist(), expected=b.tolist(), tolerance=tol * s)


class Prop:
    id = None
    quick = 200
    thorough = 4000
    variants = ("plain",)
    rule = ""
    required = {}
    min_distinct = None
    assumptions = []
    fixed_cases = ()

    def gen(self, rng, i):
        raise NotImplementedError

    def run(self, c, m):
        raise NotImplementedError

    def cases(self, seed, tier):
        n = self.quick if tier == "quick" else self.thorough
        for i in range(n):
            yield i

    def make(self, seed, i):
        rng = np.random.default_rng([seed & 0x7FFFFFFF, zlib.crc32(self.id.encode()), i])
        return self.gen(rng, i)


def valid_call(f, *a, **k):
    """call the package with an input inside its documented domain: an exception is a violation"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return f(*a, **k)
    except (Violation, KnownFinding, Skip):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(x.filename)}:{x.name}" for x in tb[-3:])
        raise Violation(f"raised {type(e).__name__}: {str(e)[:200]} ({where})")


def conditioning(case):
    """How far rounding can be amplified in this readout, in electrons: measured on the independent model, with images that
    differ in the eleventh digit.  Only asked for when two results that should agree do not."""
    if not isinstance(case, dict) or not {"ccd", "groups", "image"} <= set(case):
        return 0.0
    from props.readout import model
    from refmodel import RefManager
    im = np.array(case["image"], float)
    if im.ndim != 2 or im.size == 0:
        return 0.0
    todo = [(case, im)]
    if isinstance(case.get("serial"), dict):
        todo.append((dict({k: v for k, v in case.items() if k not in ("window", "time_window")}, **case["serial"]), im.T))
    worst, g = 0.0, np.random.default_rng(7)
    for c, x in todo:
        try:
            exp = model(c, x.tolist())
            for _ in range(3):
                alt = model(c, (x * (1 + 1e-11 * g.choice([-1, 1], x.shape))).tolist())
                worst = max(worst, float(np.abs(alt - exp).max()))
            RefManager.snap = 1e-12
            worst = max(worst, float(np.abs(model(c, x.tolist()) - exp).max()), float(np.abs(model(c, x.tolist()) - alt).max()))
        except Exception:
            pass        # not a mode of the model
        finally:
            RefManager.snap = 0.0
    return 100 * worst


def guarded(prop, case, m):
    """-> ('ok'|'skip'|'known'|'violation', message, detail)"""
    m.case = case
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                prop.run(case, m)
        return "ok", "", {}
    except Skip as e:
        return "skip", str(e), {}
    except KnownFinding as e:
        return "known", str(e), {}
    except Violation as e:
        return "violation", str(e), e.detail
    # anything else is an error of the harness: let it propagate


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def run_shard(prop, seed, tier, shard, nshards, out, deadline):
    res = {"evaluations": 0, "skipped": 0, "nontrivial": [], "counts": {}, "samples": [], "violation": None,
           "known": [], "timed_out": False, "planned": 0}
    cur = out + ".cur"
    todo = [("f", i) for i in range(len(prop.fixed_cases))] + [("r", i) for i in prop.cases(seed, tier)]
    for k, (kind, i) in enumerate(todo):
        if k % nshards != shard:
            continue
        res["planned"] += 1
        if time.time() > deadline:
            res["timed_out"] = True
            continue
        case = prop.fixed_cases[i] if kind == "f" else prop.make(seed, i)
        with open(cur, "w") as f:
            json.dump({"index": [kind, i], "case": case}, f)
        m = Mon()
        v, msg, det = guarded(prop, case, m)
        res["evaluations"] += 1
        for a, b in m.counts.items():
            res["counts"][a] = max(res["counts"].get(a, 0), b) if a.endswith("_max") else res["counts"].get(a, 0) + b
        if v == "skip":
            res["skipped"] += 1
            continue
        if v == "known":
            res["known"].append(msg)
        if m.nontrivial:
            res["nontrivial"].append(digest(case))
            if len(res["samples"]) < 2:
                res["samples"].append({"case": case, "observed": dict(m.counts)})
        if v == "violation":
            res["violation"] = {"index": [kind, i], "case": case, "message": msg, "detail": det}
            break
    with open(out, "w") as f:
        json.dump(res, f)
    with contextlib.suppress(OSError):
        os.remove(cur)

"""C20: results depend on the arguments only - not on history, object identity, memory layout or other threads"""
import copy, os, pickle, sys, threading, warnings

import numpy as np

import spec as S
from harness import Prop, Violation, valid_call
from props.managers import gen_manager_case, real_manager, step, well
from props.physics import base_case
from props.readout import any_mode, top


def AC():
    import arcticpy
    return arcticpy


def freeze(o, depth=0):
    """a comparable picture of everything reachable from the caller's objects"""
    if isinstance(o, np.ndarray):
        return ("a", o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, (list, tuple)):
        return ("l", type(o).__name__, tuple(freeze(x, depth + 1) for x in o))
    if isinstance(o, dict):
        return ("d", tuple((str(k), freeze(v, depth + 1)) for k, v in sorted(o.items(), key=lambda x: str(x[0]))))
    if isinstance(o, (int, float, str, bool, type(None), range, complex)) or isinstance(o, np.generic):
        return repr(o)
    if callable(o) and not hasattr(o, "__dict__"):
        return "f"
    if hasattr(o, "__dict__") and depth < 8 and type(o).__module__.startswith("arcticpy"):
        return ("o", type(o).__name__, freeze(vars(o), depth + 1))
    return ("?", type(o).__name__)


def public(o):
    """what a user can read off the objects handed over (private caches are the package's own business)"""
    if isinstance(o, (list, tuple)):
        return [public(x) for x in o]
    if type(o).__module__.startswith("arcticpy"):
        names = {k.lstrip("_") for k in vars(o) if not k.startswith("__")}
        out = {}
        for k in sorted(names):
            if hasattr(o, k):
                out[k] = freeze(getattr(o, k))
        return out
    return freeze(o)


class C20(Prop):
    id = "C20"
    quick, thorough = 480, 13500
    rule = ("random calls in every mode, repeated, on fresh and reused objects, on objects whose values are set later, after other work and after failed calls, on every array "
            "layout, and from four threads sharing the objects with a thread switch every microsecond; compared bit by bit")
    required = {"repeat": 300, "fresh": 300, "layout": 1500, "thread_runs": 400, "switches": 50, "after_failure": 60, "arguments": 300,
                "nested": 100, "pickled": 60, "rng": 300, "managers": 60, "remove": 50, "set_later": 60}

    def gen(self, rng, i):
        n = S.phases(rng)
        rows, cols = int(rng.integers(2, 8)), int(rng.integers(1, 5))
        c = base_case(rng, rows=rows, cols=cols, n_phases=n, n_groups=int(rng.choice([1, 1, 2])),
                      kinds=("slow", "instant") if rng.random() < 0.95 else ("continuum",))
        if rng.random() < 0.15:
            c["roe"] = {"type": "pump", "dwell": [S.r6(x) for x in rng.uniform(0.1, 2, 2 * n)], "n_pumps": int(rng.integers(1, 6))}
            c["express"] = int(rng.choice([0, 1, 2]))
            c["window"] = int(rng.integers(rows))
        else:
            any_mode(rng, c, n, rows)
            c["roe"]["between"] = bool(rng.random() < 0.7)
        c["other"] = base_case(rng, rows=int(rng.integers(1, 12)), cols=2, n_phases=n)
        c["threads"] = bool(rng.random() < 0.4)
        c["remove"] = bool(rng.random() < 0.25)
        if rng.random() < 0.4:       # the same objects, with other values set later
            d = base_case(rng, rows=2, n_phases=n)
            r = dict(c["roe"], dwell=[S.r6(x) for x in rng.uniform(0.1, 2, len(c["roe"]["dwell"]))], int=bool(rng.random() < 0.5))
            if r["type"] != "ci":
                r["first"] = bool(rng.random() < 0.5)
            if r["type"] != "pump":
                r["between"] = bool(rng.random() < 0.5)
            for x in ("n_pumps", "n_transfers"):
                if r.get(x):
                    r[x] = int(rng.integers(1, 9))
            n_sp = 1 if any(x["kind"] == "continuum" for x in c["groups"]) else None
            g = [dict(x, species=[[S.r6(s[0] * rng.uniform(0, 2))] + s[1:] for s in x["species"][:n_sp]]) for x in c["groups"]]
            pick = rng.random(3) < 0.7
            c["later"] = {a: b for a, b, q in zip(("ccd", "roe", "groups"), (d["ccd"], r, g), pick) if q}
        c["manager"] = gen_manager_case(rng, str(rng.choice(["slow", "instant"])), max_len=12) if rng.random() < 0.25 else None
        if any(g["kind"] == "continuum" for g in c["groups"]):
            c["image"], c["threads"], c["remove"] = [r[:1] for r in c["image"][:3]], False, False
            c["groups"] = [dict(g, species=g["species"][:1]) for g in c["groups"]]
            if isinstance(c.get("window"), int):
                c["window"] = min(c["window"], len(c["image"]) - 1)
        return c

    def run(self, c, m):
        ac = AC()
        im = S.img(c["image"])
        mk = lambda: S.kwargs(ac, c)
        k = mk()
        f = (lambda x, kw: ac.remove_cti(x, 2, **kw)) if c["remove"] else (lambda x, kw: ac.add_cti(x, **kw))
        m.ev("remove", c["remove"])
        seen = public(list(k.values()))
        keep, flags = im.copy(), im.flags.writeable
        state = np.random.get_state()[1].copy()
        settings = lambda: (np.geterr(), list(warnings.filters), np.get_printoptions(), dict(os.environ), os.getcwd())

        def watched():
            with warnings.catch_warnings():
                warnings.resetwarnings()
                warnings.simplefilter("ignore")
                before = settings()
                return f(im, k), before, settings()
        ref, before, after = valid_call(watched)
        frozen = ref.copy()
        same = lambda x, what: m.check(np.shape(x) == ref.shape and (np.asarray(x) == frozen).all(), what,
                                       got=np.asarray(x).tolist(), expected=frozen.tolist())
        # the same values laid out differently may be summed in another order, so that comparison allows for rounding
        tol = 1e-9 * max(top(c), 1.0)
        close = lambda x, what: m.check(np.shape(x) == ref.shape and np.abs(np.asarray(x) - frozen).max() <= tol, what,
                                        got=np.asarray(x).tolist(), expected=frozen.tolist())
        m.check((im == keep).all(), "the caller's image was modified")
        m.check(not np.shares_memory(ref, im), "the result shares memory with the input")
        m.check(public(list(k.values())) == seen, "an argument object was modified")
        m.ev("arguments")
        m.check((np.random.get_state()[1] == state).all(), "the global random state was touched")
        m.check(before == after, "settings of numpy, the warnings filters or the process were changed", got=str(after)[:500], expected=str(before)[:500])
        m.ev("rng")
        same(valid_call(f, im, k), "the same call again gave another result")
        m.ev("repeat")
        # the objects are reused for another image, then used again
        o = S.img(c["other"]["image"])
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ac.add_cti(o, **{a: b for a, b in k.items() if "window" not in a})
        except Exception:
            pass
        same(valid_call(f, im, k), "another image in between changed the result")
        # calls that fail half way leave nothing behind
        if c["roe"].get("type") != "pump":
            bad = dict(k)
            bad["parallel_traps"] = [[ac.Trap(density=1.0, release_timescale=1.0), "not a trap"]]
            for x, kw in ((im, bad), (np.zeros(3), k), (im, dict(k, parallel_ccd=None))):
                try:
                    ac.add_cti(x, **kw)
                except Exception:
                    m.ev("after_failure")
            same(valid_call(f, im, k), "a failed call changed later results")
        same(valid_call(f, im, mk()), "fresh objects gave another result")
        m.ev("fresh")
        if c["roe"].get("type") != "pump" and not any(g["kind"] == "continuum" for g in c["groups"]):
            try:
                k2 = pickle.loads(pickle.dumps(k))
            except Exception:
                k2 = None
            if k2 is not None:
                same(valid_call(f, im, k2), "pickled objects gave another result")
                m.ev("pickled")
        same(valid_call(f, im, copy.deepcopy(k)), "deep-copied objects gave another result")
        if c.get("later"):
            self.later(c, m, f, im, mk())
        if len(k["parallel_traps"]) == 1:
            same(valid_call(f, im, dict(k, parallel_traps=k["parallel_traps"][0])), "a flat list of traps gave another result")
            m.ev("nested")
        # memory layouts of the same values
        big = np.zeros((im.shape[0] * 2, im.shape[1] * 3))
        big[::2, ::3] = im
        ro = im.copy()
        ro.flags.writeable = False
        for name, x in (("Fortran order", np.asfortranarray(im)), ("a strided view", big[::2, ::3]), ("a read-only array", ro),
                        ("a transposed view", np.ascontiguousarray(im.T).T), ("a reversed view", np.ascontiguousarray(im[::-1, ::-1])[::-1, ::-1])):
            close(valid_call(f, x, k), f"{name} gave another result")
            m.ev("layout")
        if c["roe"].get("type") != "pump":
            whole = np.rint(im)
            for dt in (np.int64, np.float32, np.int32):
                if whole.max() < 1e7:
                    a, b = valid_call(f, whole.astype(dt), k), valid_call(f, whole, k)
                    m.check(a.shape == b.shape and np.abs(a - b).max() <= tol and a.dtype == np.float64, f"an image of type {dt.__name__} gave another result")
                    m.ev("layout")
        if c["threads"]:
            self.threads(c, m, f, im, k, frozen)
        m.check((ref == frozen).all(), "an earlier result was changed by later calls")
        if c["manager"]:
            # two managers interleaved in the same thread do not see each other
            q = c["manager"]
            a, b, s = real_manager(q), real_manager(q), real_manager(q)
            w = well(q)
            alone = [step(s, n, dt, w) for n, dt in zip(q["history"], q["dwell"])]
            x, y = [], []
            for j, (n, dt) in enumerate(zip(q["history"], q["dwell"])):
                x.append(step(a, n, dt, w))
                if j:
                    y.append(step(b, q["history"][j - 1], q["dwell"][j - 1], w))
            m.check(x == alone and y == alone[:-1], "interleaved managers influence each other")
            m.ev("managers")
        m.nt(float(np.abs(frozen - im).max()) > 1e-9 * max(top(c), 1e-3))

    def later(self, c, m, f, im, k):
        """objects already used whose values are then set to others are as good as new ones made with those"""
        ac, q = AC(), c["later"]
        full = dict(k)
        full.setdefault("parallel_roe", S.roe(ac, c["roe"]))
        valid_call(f, im, full)
        ccd, roe, tr = full["parallel_ccd"], full["parallel_roe"], full["parallel_traps"]
        if "ccd" in q:
            new = S.ccd(ac, q["ccd"])
            ccd.fraction_of_traps_per_phase = list(q["ccd"].get("fractions", [1.0]))
            for x in ("full_well_depth", "well_notch_depth", "well_fill_power"):
                setattr(ccd, x, list(getattr(new, x)))
        if "roe" in q:
            new = S.roe(ac, q["roe"])
            for x in ("dwell_times", "express_matrix_dtype", "empty_traps_for_first_transfers", "empty_traps_between_columns",
                      "n_pumps", "n_pixel_transfers"):
                if hasattr(new, x):
                    setattr(roe, x, getattr(new, x))
        if "groups" in q:
            for g, h in zip(tr, q["groups"]):
                for t, sp in zip(g, h["species"]):
                    t.density = sp[0]
        got, exp = valid_call(f, im, full), valid_call(f, im, S.kwargs(ac, dict(c, **q)))
        m.check((got == exp).all(), f"objects whose {', '.join(q)} were set after use differ from new ones", got=got.tolist(), expected=exp.tolist())
        m.ev("set_later", not (np.asarray(exp) == im).all())

    def threads(self, c, m, f, im, k, expect):
        out, errs, order = [], [], []
        go = threading.Barrier(4)

        def work(t):
            try:
                go.wait(30)
                for _ in range(2):
                    order.append(t)
                    r = f(im, k)
                    order.append(t)
                    out.append(r)
            except Exception as e:  # noqa
                errs.append(f"{type(e).__name__}: {e}")
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(t,)) for t in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        m.check(not errs, f"a concurrent call raised {errs[:1]}")
        m.check(len(out) == 8 and all((r == expect).all() for r in out), "concurrent calls gave another result")
        m.ev("thread_runs", len(out))
        m.ev("switches", sum(a != b for a, b in zip(order[::2], order[1::2])))


PROPS = {p.id: p for p in (C20,)}

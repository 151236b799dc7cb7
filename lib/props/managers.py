"""C04-C07, C29: histories of single trap managers, watched step by step"""
import math

import numpy as np

import refreadout as R
import spec as S
from harness import Prop, Violation, valid_call
from refmodel import RefManager, fill_volume


def AC():
    import arcticpy
    return arcticpy


HISTORY_MODES = ("log", "flat", "sparse", "levels", "decreasing", "increasing", "pulses", "gaps", "over", "edges", "ramp", "saw")


def gen_history(rng, fw, notch, L):
    mode = str(rng.choice(HISTORY_MODES))
    if mode == "log":
        x = 10 ** rng.uniform(-2, np.log10(fw), L)
    elif mode == "flat":
        x = np.full(L, 10 ** rng.uniform(0, np.log10(fw)))
    elif mode == "sparse":
        x = np.where(rng.random(L) < 0.3, 10 ** rng.uniform(-2, np.log10(fw), L), 0)
    elif mode == "levels":
        x = rng.integers(0, 5, L) * fw / 5.0
    elif mode == "decreasing":
        x = np.sort(rng.uniform(0, fw, L))[::-1]
    elif mode == "increasing":
        x = np.sort(rng.uniform(0, fw, L))
    elif mode == "pulses":
        x = np.where(np.arange(L) % int(rng.integers(2, 6)) == 0, rng.uniform(0, fw, L), rng.uniform(0, 2 * notch + 1, L))
    elif mode == "gaps":
        x = np.repeat(rng.uniform(0, fw, L), 3)[:L] * (rng.random(L) < 0.6)
    elif mode == "edges":
        x = rng.choice([0.0, notch, notch * (1 + 1e-5), fw, fw * (1 - 1e-5), fw * (1 + 1e-5), 0.5 * (fw + notch), 1e-3], L)
    elif mode == "ramp":       # levels nested ever deeper, then ever higher
        x = fw * np.concatenate([np.linspace(0.95, 0.05, L - L // 2), np.linspace(0.06, 0.97, L // 2)])
    elif mode == "saw":
        x = fw * (0.1 + 0.8 * (np.arange(L) % 7) / 7.0) * (1 - 0.5 * np.arange(L) / L)
    else:
        x = rng.uniform(0.7, 1.4, L) * fw
    return [S.r6(v) for v in x]


def gen_manager_case(rng, kind, dens=None, linear=None, max_len=30, n_species=3, fw_range=(1e2, 1e5)):
    fw = S.logu(rng, *fw_range)
    linear = bool(rng.random() < 0.25) if linear is None else linear
    notch = float(rng.choice([0.0, 0.0, S.r6(0.01 * fw), S.r6(0.1 * fw)]))
    dens = dens or fw * float(rng.choice([1e-4, 1e-2, 0.3, 3.0]))
    L = int(rng.integers(2, max_len))
    if max_len == 30:
        if rng.random() < 0.03:
            L = int(rng.integers(40, 160))
        if rng.random() < 0.05:
            n_species = 8
    dt = float(rng.choice([1.0, 0.3, 0.01, 3.0]))
    q, t = S.gen_units(rng)
    species = S.gen_species(rng, kind, int(rng.integers(1, n_species + 1)), dens)
    return {"kind": kind, "species": S.in_units([{"kind": kind, "species": species}], q, t)[0]["species"],
            "full_well": S.scaled(fw, q), "notch": S.scaled(notch, q),
            "power": 1.0 if linear else float(rng.choice([0.35, 0.478, 0.58, 0.8, 1.0])),
            "history": S.scaled(gen_history(rng, fw, notch, L), q),
            "dwell": S.scaled([dt] * L if rng.random() < 0.7 else [S.r6(x) for x in rng.uniform(0.01, 2, L)], t)}


def well(c):
    ac = AC()
    return ac.CCD(full_well_depth=c["full_well"], well_notch_depth=c["notch"], well_fill_power=c["power"]).well_filling_function(0)


def ref_vol(c):
    return lambda n: fill_volume(n, c["full_well"], c["notch"], c["power"])


def real_manager(c, track=False, length=None):
    ac = AC()
    traps = [S.trap(ac, c["kind"], s) for s in c["species"]]
    cls = ac.TrapManagerTrackTime if track or c["kind"] == "continuum" else (
        ac.TrapManager if c["kind"] == "slow" else ac.TrapManagerInstantCapture)
    return valid_call(cls, traps=traps, max_n_transfers=length or len(c["history"]))


def step(tm, n, dt, f):
    # a dwell time of 1 is the default; so is an express multiplier of 1
    kw = {} if dt == 1.0 and int(n) % 2 else {"dwell_time": dt, "express_multiplier": 1}
    return float(valid_call(tm.n_electrons_released_and_captured, n_free_electrons=n, ccd_filling_function=f, **kw))


def trapped(tm):
    return float(valid_call(tm.n_trapped_electrons_from_watermarks, watermarks=tm.watermarks))


def discrete(species, n=61):
    """a continuum of lifetimes as many species of one lifetime each"""
    x = np.linspace(-6, 6, n)
    w = np.exp(-x * x / 2)
    w /= w.sum()
    return [(d * float(q), float(mu * math.exp(s * y)), 0.0) for d, mu, s in species for q, y in zip(w, x)]


def expand(groups):
    return [{"kind": "instant", "species": discrete(g["species"])} if g["kind"] == "continuum" else g for g in groups]


class Ledger:
    """invariants of one manager over its history"""

    def __init__(self, tm, c, m, times=False):
        self.tm, self.m, self.times = tm, m, times
        self.cap = sum(s[0] for s in c["species"])
        self.scale = max(self.cap, 1e-9)
        self.before = trapped(tm)

    def observe(self, n, net, dt):
        m, after = self.m, trapped(self.tm)
        tol = 1e-9 * (self.scale + n) + (1e-7 * self.scale if self.times else 0)
        m.ev("steps")
        m.check(math.isfinite(net) and math.isfinite(after), f"not finite: net {net}, trapped {after}")
        m.check(abs(net - (self.before - after)) <= tol,
                f"{net:.9g} electrons returned but the number in traps went from {self.before:.9g} to {after:.9g}")
        m.check(-net <= n + tol, f"{-net:.9g} electrons captured from a cloud of {n:.9g}")
        m.check(-tol <= after <= self.cap + tol, f"{after:.9g} electrons in {self.cap:.9g} traps")
        m.ev("captures", net < -tol)
        m.ev("releases", net > tol)
        m.ev("took_all", n > 0 and abs(-net - n) <= 1e-9 * n)
        w = np.asarray(self.tm.watermarks, float)
        vol, val = w[:, 0], w[:, 1:]
        m.check((vol >= -1e-12).all() and vol.sum() <= 1 + 1e-9, f"levels occupy volumes {vol[vol != 0].tolist()}")
        act = vol > 0
        m.check(act[: int(act.sum())].all(), f"active levels are not contiguous: {vol.tolist()}")
        a = val[act]
        if self.times:
            m.check((a >= -1e-9).all(), "negative elapsed time")
        else:
            m.check((a >= -1e-9).all() and (a <= 1 + 1e-9).all(), f"fill fraction outside 0..1: {a.tolist()}")
        m.ev("levels_max", 0)
        m.counts["levels_max"] = max(m.counts["levels_max"], int(act.sum()))
        self.before = after
        return after


class C04(Prop):
    id = "C04"
    quick, thorough = 1680, 42000
    KINDS = ("slow", "instant", "slow", "instant", "track", "slow", "instant", "continuum")
    rule = ("random histories of 2-30 clouds (nine shapes) through one manager of each type; every step's ledger checked; "
            "non-trivial when electrons were both captured and released")
    required = {"captures": 500, "releases": 200, "took_all": 50, "drained": 100, "longer_than_planned": 20}

    def gen(self, rng, i):
        k = self.KINDS[i % 8]
        c = gen_manager_case(rng, "instant" if k == "track" else k, max_len=9 if k in ("continuum", "track") else 30,
                             n_species=2 if k == "continuum" else 3)
        c["track"] = k == "track"
        c["planned"] = int(rng.integers(1, len(c["history"]) + 1)) if rng.random() < 0.3 else len(c["history"])
        return c

    def run(self, c, m):
        times = c["track"] or c["kind"] == "continuum"
        tm = real_manager(c, c["track"], c["planned"])
        f = well(c)
        lg = Ledger(tm, c, m, times)
        m.ev("longer_than_planned", c["planned"] < len(c["history"]))
        m.check(abs(lg.before) < 1e-12, "a new manager is not empty")
        for n, dt in zip(c["history"], c["dwell"]):
            lg.observe(n, step(tm, n, dt, f), dt)
        m.nt(m.counts.get("captures", 0) > 0)
        # no electrons around: traps can only release, and end up empty
        if c["notch"] >= 0.1 * c["full_well"] * 0.99 and not times:
            b = lg.before
            if b < c["notch"]:
                tmax = max(s[1] for s in c["species"])
                for _ in range(3):
                    a = lg.observe(0.0, step(tm, 0.0, 20 * tmax, f), 20 * tmax)
                    m.check(a <= b + 1e-9 * lg.scale, "electrons captured out of nothing")
                    b = a
                m.ev("drained")
                m.check(b <= 1e-8 * lg.scale, f"{b:.6g} electrons never released")
        valid_call(tm.empty_all_traps)
        m.check(trapped(tm) == 0, "emptied traps are not empty")
        if not times:
            # from empty, the first cloud is treated exactly as by a new manager
            fresh = real_manager(c)
            n = max(c["history"])
            m.close(step(tm, n, 1.0, f), step(fresh, n, 1.0, f), "an emptied manager differs from a new one", 1e-12, n + 1)


def shadowed(kind, c):
    """The model, and how far rounding can have taken it by now.  With more traps than electrons the map can amplify
    rounding without limit, which the model itself shows: one copy is given clouds that differ in the eleventh digit,
    another takes nearly equal heights as equal.  (The managers do that too: heights are known to 1e-12 of the well.)"""
    eps = 1e-11 * sum(s[0] for s in c["species"])
    rm, alt, flat = (RefManager(kind, [tuple(s) for s in c["species"]]) for _ in range(3))
    flat.snap = 1e-12

    def slack(k, n, dt, vol, exp):
        out = [exp, alt.step(n * (1 + 1e-11 * (-1) ** k), dt, vol), flat.step(n, dt, vol)]
        held = [r.trapped() for r in (rm, alt, flat)]
        return eps + 100 * max(max(x) - min(x) for x in (out, held))
    return rm, slack


class Conform(Prop):
    kind = None
    cls = None

    def gen(self, rng, i):
        c = gen_manager_case(rng, self.kind)
        if rng.random() < 0.2:
            for s in c["species"]:
                s[2] = 0.0
        return c

    def run(self, c, m):
        tm = real_manager(c)
        rm, sh = shadowed("slow" if self.kind == "slow" else "instant", c)
        f, vol = well(c), ref_vol(c)
        for k, (n, dt) in enumerate(zip(c["history"], c["dwell"])):
            t0 = rm.trapped()
            got = step(tm, n, dt, f)
            exp = rm.step(n, dt, vol)
            slack = sh(k, n, dt, vol, exp)
            sc = max(abs(exp), n, t0, 1e-3)
            if slack > 1e-3 * sc:
                m.ev("ill_conditioned")
                break
            m.ev("steps")
            m.close(got, exp, f"step {k}, cloud of {n}: electrons given back", 1e-7 + slack / sc, sc)
            m.close(trapped(tm), rm.trapped(), f"step {k}: electrons in traps", 1e-7 + slack / sc, sc)
        for k, v in rm.events.items():
            m.ev(k, v)
        m.nt(rm.events["below"] + rm.events["above"] > 0)


class C05(Conform):
    id = "C05"
    kind = "slow"
    quick, thorough = 9000, 180000
    rule = "random histories through a manager of slow-capture species, compared step by step with the independent model"
    required = {"first": 300, "below": 1000, "above": 200, "scarce": 30, "overshoot": 3, "merge": 100, "recapture": 500, "lasting": 40}

    def gen(self, rng, i):
        if i % 100 == 7:
            # traps that keep their electrons for very long: what little they release adds up
            fw, dt = S.logu(rng, 1e3, 1e6), S.logu(rng, 0.01, 10)
            L = int(rng.integers(50, 200))
            return {"kind": "slow", "species": [[S.r6(fw * 10 ** rng.uniform(-2, 0)), S.r6(dt * 10 ** rng.uniform(4, 11)), S.r6(dt * 10 ** rng.uniform(-3, -1.5))]],
                    "full_well": fw, "notch": 0.0, "power": 1.0, "history": [S.r6(fw * rng.uniform(0.2, 1.2))] + [0.0] * L, "dwell": [dt] * (L + 1),
                    "lasting": True}
        return super().gen(rng, i)

    def run(self, c, m):
        if "lasting" not in c:
            return super().run(c, m)
        tm, f, vol = real_manager(c), well(c), ref_vol(c)
        rm = RefManager("slow", [tuple(s) for s in c["species"]])
        got = [step(tm, n, dt, f) for n, dt in zip(c["history"], c["dwell"])]
        exp = [rm.step(n, dt, vol) for n, dt in zip(c["history"], c["dwell"])]
        held = rm.trapped()
        m.close(got[0], exp[0], "first cloud", 1e-9, held)
        m.check(abs(sum(got[1:]) - sum(exp[1:])) <= 1e-4 * abs(sum(exp[1:])) + 1e-14 * len(got) * held,
                f"{sum(got[1:]):.9g} electrons released in {len(got) - 1} visits, expected {sum(exp[1:]):.9g} of {held:.9g}")
        m.ev("lasting")
        m.nt()


class C06(Conform):
    id = "C06"
    kind = "instant"
    quick, thorough = 9000, 180000
    rule = "random histories through a manager of instant-capture species, compared step by step with the independent model"
    required = {"first": 300, "below": 1000, "above": 200, "scarce": 30, "merge": 100}

    def gen(self, rng, i):
        c = gen_manager_case(rng, "instant")
        c["separate"] = bool(rng.random() < 0.3)
        return c

    def run(self, c, m):
        if not c["separate"]:
            return super().run(c, m)
        # the two halves of a visit, asked for one at a time
        a, b = real_manager(c), real_manager(c)
        rm, sh = shadowed("instant", c)
        f, vol = well(c), ref_vol(c)
        eps = 1e-11 * sum(s[0] for s in c["species"])
        for i, (n, dt) in enumerate(zip(c["history"], c["dwell"])):
            slack = sh(i, n, dt, vol, rm.step(n, dt, vol))
            r = float(valid_call(a.n_electrons_released, **({} if dt == 1.0 and int(n) % 2 else {"dwell_time": dt})))
            m.check(r >= -eps, "negative release")
            k = float(valid_call(a.n_electrons_captured, n_free_electrons=n + r, ccd_filling_function=f, dwell_time=dt, express_multiplier=1))
            m.check(-1e-9 * n - eps <= k <= (n + r) * (1 + 1e-9) + eps, "captured more than available")
            sc = max(n, r, 1e-3)
            if slack > 1e-3 * sc:
                m.ev("ill_conditioned")
                break
            m.close(r - k, step(b, n, dt, f), "release and capture separately differ from together", 1e-9 + slack / sc, sc)
            m.ev("separate_steps")
        m.nt()


class C07(Prop):
    id = "C07"
    quick, thorough = 1800, 36000
    rule = ("histories through a manager that records elapsed times: plain species against the fill-fraction manager, and a "
            "continuum of lifetimes against the independent model with the same continuum as 61 discrete species, one manager "
            "at a time and in whole readouts")
    required = {"plain": 100, "continuum": 40, "scarce": 10, "readout": 20, "mixed_groups": 5}

    def gen(self, rng, i):
        if i % 12 == 1:
            n = int(rng.choice([1, 1, 2, 3]))
            cc = S.gen_ccd(rng, n, linear=True)
            fw = S.min_well(cc)
            g = [{"kind": "continuum", "species": [[S.r6(fw * 10 ** rng.uniform(-5, -0.8)), S.logu(rng, 0.2, 20), S.r6(rng.uniform(0.05, 1.0))]]}]
            if rng.random() < 0.4:
                g += S.gen_groups(rng, fw * 0.01)
            if rng.random() < 0.3:
                g.reverse()
            rows = int(rng.integers(1, 5))
            return {"mode": "readout", "ccd": cc, "groups": g, "image": S.gen_image(rng, rows, int(rng.integers(1, 3)), cc),
                    "offset": int(rng.choice([0, 0, 1])), "express": int(rng.choice([0, 0, 1, 2])),
                    "roe": {"dwell": S.gen_dwell(rng, n), "type": str(rng.choice(["std", "std", "ci"])), "first": bool(rng.random() < 0.6),
                            "between": bool(rng.random() < 0.6), "away": True}}
        if i % 2 == 0:
            c = gen_manager_case(rng, "instant", max_len=12, **({"dens": 3 * S.logu(rng, 1e2, 1e5), "linear": False} if i % 8 == 0 else {}))
            c["mode"] = "plain"
        else:
            fw = S.logu(rng, 1e2, 1e5)
            c = gen_manager_case(rng, "continuum", max_len=8, n_species=2, linear=True)
            fw = c["full_well"]
            for s in c["species"]:
                s[0] = S.r6(fw * 10 ** rng.uniform(-5, -0.6) / len(c["species"]))
                s[1] = S.logu(rng, 0.2, 20)
                s[2] = S.r6(rng.uniform(0.05, 1.0))
            c["mode"] = "continuum"
        return c

    def run(self, c, m):
        m.ev(c["mode"])
        if c["mode"] == "readout":
            im = S.img(c["image"])
            got = valid_call(AC().add_cti, im, **S.kwargs(AC(), c))
            exp = np.array(R.readout([list(x) for x in im.T], c["ccd"], expand(c["groups"]), c["roe"], c["express"], c["offset"],
                                     default_time_window=[0, im.shape[0] + c["offset"]])).T
            m.ev("mixed_groups", len(c["groups"]) > 1)
            m.close(got, exp, "readout with continuum species", 2e-6, max(float(im.max()), 1e-3))
            m.nt(np.abs(got - im).max() > 1e-6 * max(im.max(), 1e-3))
            return
        f = well(c)
        eps = 1e-11 * sum(s[0] for s in c["species"])
        if c["mode"] == "plain":
            a, b = real_manager(c, track=True), real_manager(c)
            rm = RefManager("instant", [tuple(s) for s in c["species"]])
            for k, (n, dt) in enumerate(zip(c["history"], c["dwell"])):
                t0 = rm.trapped()
                e0 = (rm.events["scarce"], rm.events["merge"])
                rm.step(n, dt, ref_vol(c))
                x, y = step(a, n, dt, f), step(b, n, dt, f)
                m.ev("steps")
                m.close(x, y, f"step {k}: elapsed times and fill fractions disagree", 1e-6, max(n, abs(y), t0, 1e-3, 1e6 * eps))
                m.close(trapped(a), trapped(b), f"step {k}: electrons in traps", 1e-6, max(n, t0, 1e-3, 1e6 * eps))
                if rm.events["scarce"] > e0[0] and rm.events["merge"] > e0[1]:
                    # levels merged while short of electrons: the two managers keep different detail from here on
                    m.ev("scarce_merge")
                    break
            m.ev("scarce", rm.events["scarce"])
            m.nt()
            return
        a = real_manager(c)
        sp = discrete(c["species"])
        rm = RefManager("instant", sp)
        for k, (n, dt) in enumerate(zip(c["history"], c["dwell"])):
            got, exp = step(a, n, dt, f), rm.step(n, dt, ref_vol(c))
            m.ev("steps")
            m.close(got, exp, f"step {k}: continuum species", 1e-6, max(n, rm.trapped(), 1e-3, 1e6 * eps))
        m.nt()


class C29(Prop):
    id = "C29"
    quick, thorough = 960, 24000
    rule = "random save / visit / restore / empty sequences over all phases and groups, against never-touched twins"
    required = {"save": 200, "restore": 300, "empty": 50, "visits": 1000, "restore_unsaved": 20, "continuum": 20, "like_states": 40}

    def gen(self, rng, i):
        nph = int(rng.choice([1, 2, 3, 4]))
        c = S.gen_ccd(rng, nph)
        groups = S.gen_groups(rng, S.min_well(c) * float(rng.choice([0.01, 0.3])), n_groups=int(rng.integers(1, 4)))
        L = int(rng.integers(6, 30))
        if i % 8 == 0:
            nph = int(rng.choice([1, 2]))
            c = S.gen_ccd(rng, nph, linear=True)
            groups = S.gen_groups(rng, S.min_well(c) * 0.1, n_groups=1)
            groups.insert(int(rng.integers(0, 2)), {"kind": "continuum", "species": [[S.r6(S.min_well(c) * 0.05), S.logu(rng, 0.2, 20), S.r6(rng.uniform(0.05, 1.0))]]})
            L = int(rng.integers(4, 9))
        ops = []
        if i % 8 == 3:
            # different states that hold as many electrons: like clouds met in phases of equal width
            nph = int(rng.choice([2, 3, 4]))
            c = {**S.gen_ccd(rng, 1), "fractions": [1.0] * nph}
            n, dt = S.logu(rng, 10, S.min_well(c)), S.r6(rng.uniform(0.1, 2))
            for _ in range(int(rng.integers(2, 5))):
                for p in rng.permutation(nph)[: int(rng.integers(1, nph + 1))]:
                    ops.append(["visit", int(p), n, dt])
                ops += [["save", 0, 0.0, 1.0], ["empty", 0, 0.0, 1.0]]
                if rng.random() < 0.5:
                    ops += [["restore", 0, 0.0, 1.0], ["visit", int(rng.integers(nph)), 0.0, dt], ["empty", 0, 0.0, 1.0]]
            ops += [["restore", 0, 0.0, 1.0]] + [["visit", p, 0.0, dt] for p in range(nph)]
            return {"ccd": c, "groups": groups, "ops": ops, "like": True}
        for _ in range(L):
            k = str(rng.choice(["visit", "visit", "visit", "save", "restore", "restore", "empty"]))
            ops.append([k, int(rng.integers(nph)), S.logu(rng, 1, S.min_well(c)) if rng.random() < 0.8 else 0.0, S.r6(rng.uniform(0.1, 2))])
        return {"ccd": c, "groups": groups, "ops": ops}

    def run(self, c, m):
        ac = AC()
        ccd, traps = S.ccd(ac, c["ccd"]), S.traps(ac, c["groups"])
        N = len(c["ops"]) + 1
        before = [[t.density for t in g] for g in traps]
        A = valid_call(ac.AllTrapManager, traps=traps, max_n_transfers=N, ccd=ccd)
        fr = c["ccd"].get("fractions", [1.0])
        fr = [x / sum(fr) for x in fr]
        m.check(len(A) == len(fr), "one set of managers per phase")
        for p in range(len(fr)):
            m.check(len(A[p]) == len(traps), "one manager per trap group")
            for g, tm in zip(c["groups"], A[p]):
                m.close(tm.n_traps_per_pixel, [s[0] * fr[p] for s in g["species"]], f"traps in phase {p}", 1e-9)
        m.check([[t.density for t in g] for g in traps] == before, "the caller's traps were modified")

        # the model: one RefManager per phase and group, whose whole state can be copied
        M = [[RefManager("slow" if g["kind"] == "slow" else "instant", [tuple(s) for s in g["species"]], scale=fr[p])
              for g in expand(c["groups"])] for p in range(len(fr))]
        grab = lambda: [[x.copy_state() for x in r] for r in M]

        def put(s):
            for r, q in zip(M, s):
                for x, st in zip(r, q):
                    x.levels = [[t, list(f)] for t, f in st]

        saved, has = [[[] for _ in r] for r in M], False
        m.ev("like_states", c.get("like", False))
        scale = max(S.min_well(c["ccd"]), 1.0)
        cont = any(g["kind"] == "continuum" for g in c["groups"])
        m.ev("continuum", cont)
        tol = 2e-6 if cont else 1e-7
        fs = [ccd.well_filling_function(p) for p in range(len(fr))]
        at = lambda k, d, p: (c["ccd"].get(k, d)[p] if isinstance(c["ccd"].get(k, d), list) else c["ccd"].get(k, d))
        for op, p, n, dt in c["ops"]:
            if op == "visit":
                vol = lambda e: fill_volume(e, at("full_well", 0, p), at("notch", 0.0, p), at("power", 0.58, p))
                for tm, rm in zip(A[p], M[p]):
                    m.ev("visits")
                    m.close(step(tm, n, dt, fs[p]), rm.step(n, dt, vol), f"visit of {n} electrons to phase {p}", tol, scale)
            elif op == "save":
                valid_call(A.save)
                saved, has = grab(), True
                m.ev("save")
            elif op == "restore":
                valid_call(A.restore)
                put(saved)
                m.ev("restore")
                m.ev("restore_unsaved", not has)
            else:
                valid_call(A.empty_all_traps)
                for r in M:
                    for x in r:
                        x.empty()
                m.ev("empty")
            tot = sum(x.trapped() for r in M for x in r)
            m.close(valid_call(lambda: A.n_electrons_trapped_currently), tot, f"electrons in all traps after '{op}'", tol, scale)
        m.nt(m.counts.get("visits", 0) > 0 and has)
        try:
            tm = ac.TrapManager(traps=[ac.Trap()], max_n_transfers=3)
            tm.n_traps_per_pixel = [1.0, 2.0]
        except ValueError:
            pass
        else:
            raise Violation("wrong number of trap densities was accepted")


PROPS = {p.id: p for p in (C04, C05, C06, C07, C29)}

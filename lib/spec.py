"""JSON specs of configurations: random generation, and construction of the real objects.

A case is always a plain JSON value, so that any violation can be replayed from its file.
"""
import json, zlib

import numpy as np


# ---------------------------------------------------------------- building the real objects
def terse(s, kw, defaults):
    """half of the specs leave out the arguments that equal their documented default"""
    if zlib.crc32(json.dumps(s, sort_keys=True).encode()) & 1:
        return {k: v for k, v in kw.items() if k not in defaults or defaults[k] != v or type(defaults[k]) is not type(v)}
    return kw


def ccd(ac, s):
    f = s.get("fractions", [1.0])
    if s.get("custom"):
        # the documentation invites users to replace the well-filling model
        class CustomCCD(ac.CCD):
            def well_filling_function(self, phase=0):
                return lambda n_electrons, surface=False: n_electrons / (n_electrons + s["custom"])
        return CustomCCD(fraction_of_traps_per_phase=list(f))
    return ac.CCD(**terse(s, dict(fraction_of_traps_per_phase=list(f), full_well_depth=s["full_well"],
                                  well_notch_depth=s.get("notch", 0.0), well_fill_power=s.get("power", 0.58)),
                          dict(fraction_of_traps_per_phase=[1.0], full_well_depth=1e4, well_notch_depth=0.0, well_fill_power=0.58)))


def trap(ac, kind, sp):
    if kind == "slow":
        return ac.Trap(density=sp[0], release_timescale=sp[1], capture_timescale=sp[2])
    if kind == "instant":
        return ac.TrapInstantCapture(density=sp[0], release_timescale=sp[1])
    if kind == "continuum":
        return ac.TrapLogNormalLifetimeContinuum(density=sp[0], release_timescale_mu=sp[1],
                                                 release_timescale_sigma=sp[2])
    raise ValueError(kind)


def traps(ac, groups):
    return [[trap(ac, g["kind"], sp) for sp in g["species"]] for g in groups]


def roe(ac, s):
    t = s.get("type", "std")
    dt = int if s.get("int") else float
    k = dict(dwell_times=list(s.get("dwell", [1.0])), express_matrix_dtype=dt)
    d = dict(dwell_times=[1.0], express_matrix_dtype=float, empty_traps_for_first_transfers=True, empty_traps_between_columns=True,
             force_release_away_from_readout=True, n_pixel_transfers=None, n_pumps=1)
    if t == "std":
        k.update(empty_traps_for_first_transfers=s.get("first", True), empty_traps_between_columns=s.get("between", True),
                 force_release_away_from_readout=s.get("away", True))
        return ac.ROE(**terse(s, k, d))
    if t == "ci":
        k.update(n_pixel_transfers=s.get("n_transfers"), empty_traps_between_columns=s.get("between", True),
                 force_release_away_from_readout=s.get("away", True))
        return ac.ROEChargeInjection(**terse(s, k, d))
    if t == "pump":
        d["dwell_times"] = [0.5, 0.5]
        k.update(n_pumps=s.get("n_pumps", 1), empty_traps_for_first_transfers=s.get("first", True))
        return ac.ROETrapPumping(**terse(s, k, d))
    raise ValueError(t)


def img(a):
    return np.array(a, dtype=float)


def rng_of(w):
    return None if w is None else (w if isinstance(w, int) else range(*w))


def kwargs(ac, c, which="parallel"):
    """keyword arguments of add_cti for one clocking direction, from a case dict"""
    k = {f"{which}_ccd": ccd(ac, c["ccd"]), f"{which}_roe": roe(ac, c.get("roe", {})),
         f"{which}_traps": traps(ac, c["groups"]), f"{which}_express": c.get("express", 0),
         f"{which}_offset": c.get("offset", 0)}
    if zlib.crc32(json.dumps(c["groups"]).encode()) & 1:      # half of the cases rely on the defaults
        for x in ("express", "offset"):
            if k[f"{which}_{x}"] == 0:
                del k[f"{which}_{x}"]
        if c.get("roe", {}) in ({}, dict(dwell=[1.0]), dict(dwell=[1.0], first=True, between=True, away=True, int=False, type="std")):
            del k[f"{which}_roe"]
    if c.get("window") is not None:
        k[f"{which}_window_range"] = rng_of(c["window"])
    if c.get("time_window") is not None:
        k["time_window_range"] = rng_of(c["time_window"])
    return k


# ---------------------------------------------------------------- random generation
def size(rng, lo, hi, n_phases=0):
    """a size in lo..hi-1, now and then up to three times as large, rarely dozens (with one phase)"""
    if n_phases == 1 and rng.random() < 0.007:
        return int(rng.integers(40, 90))
    return int(rng.integers(hi, 3 * hi)) if rng.random() < 0.05 else int(rng.integers(lo, hi))


def phases(rng, usual=(1, 1, 2, 3, 4)):
    """a number of phases, now and then more than any real device has"""
    return int(rng.integers(4, 8)) if rng.random() < 0.05 else int(rng.choice(usual))


def count(rng, usual, most):
    """a small number, now and then any up to most"""
    return int(rng.integers(0, most + 1)) if rng.random() < 0.06 else int(rng.choice(usual))


def r6(x):
    return float("%.6g" % x)


def logu(rng, lo, hi):
    return r6(10 ** rng.uniform(np.log10(lo), np.log10(hi)))


def gen_ccd(rng, n_phases=1, linear=False, full_well=None):
    fw = full_well or (1e4 if rng.random() < 0.1 else logu(rng, 1e2, 1e5))
    s = {"full_well": fw, "power": 1.0 if linear else float(rng.choice([0.35, 0.478, 0.58, 0.8, 1.0])),
         "notch": float(rng.choice([0.0, 0.0, r6(0.01 * fw), r6(0.1 * fw)]))}
    if n_phases > 1:
        f = rng.uniform(0.05, 1, n_phases)
        if rng.random() < 0.3:
            f[rng.integers(n_phases)] = 0.0
        if f.sum() == 0:
            f[:] = 1
        if rng.random() < 0.1:       # a phase with hardly any traps
            f[rng.integers(n_phases)] *= 10 ** rng.uniform(-6, -2)
            f[rng.integers(n_phases)] += 0.1
        s["fractions"] = [r6(x) for x in f / f.sum()]
        if rng.random() < 0.1:       # phases that differ in one parameter only, or that hold as much above the notch
            k = str(rng.choice(["full_well", "notch", "power", "range"]))
            pick = rng.integers(0, 2, n_phases)
            lower = r6(fw * rng.uniform(0.05, 0.4))
            if k in ("full_well", "range"):
                s["full_well"] = [r6(fw + lower * j) for j in pick]
            if k in ("notch", "range"):
                s["notch"] = [r6(s["notch"] + lower * j) for j in pick]
            if k == "power" and not linear:
                s["power"] = [(s["power"], 0.7)[j] for j in pick]
        elif rng.random() < 0.3:
            s["full_well"] = [r6(fw * rng.uniform(0.5, 2)) for _ in range(n_phases)]
            s["notch"] = [s["notch"] * float(rng.choice([0, 0.5, 1])) for _ in range(n_phases)]
            s["power"] = [1.0 if linear else float(rng.choice([0.4, 0.58, 1.0])) for _ in range(n_phases)]
    return s


def min_well(c):
    f = c["full_well"]
    return min(f) if isinstance(f, list) else f


def gen_species(rng, kind, n, max_density, tau=(0.1, 30.0)):
    out = []
    extreme = kind != "continuum" and tau == (0.1, 30.0) and rng.random() < 0.06
    for _ in range(n):
        d = logu(rng, max_density * 1e-4, max_density / n)
        t = logu(rng, *((1e-3, 1e8) if extreme else tau))
        if kind == "slow":
            out.append([d, t, float(rng.choice([0.0, logu(rng, 1e-3, 0.1), logu(rng, 0.1, 10)]))])
            if extreme and rng.random() < 0.5:
                out[-1][2] = logu(rng, 1e-5, 1e4)
        elif kind == "instant":
            out.append([d, t, 0.0])
        else:
            out.append([d, t, r6(rng.uniform(0.05, 1.2))])
    if rng.random() < 0.03:      # species without any traps
        for j in (range(n) if rng.random() < 0.4 else [int(rng.integers(n))]):
            out[j][0] = 0.0
    return out


def gen_groups(rng, max_density, kinds=("slow", "instant"), n_groups=1, tau=(0.1, 30.0), n_species=3):
    g = []
    for _ in range(n_groups):
        k = str(rng.choice(kinds))
        g.append({"kind": k, "species": gen_species(rng, k, int(rng.integers(1, n_species + 1)),
                                                    max_density / n_groups, tau)})
    return g


IMAGE_MODES = ("flat", "uniform", "log", "sparse", "levels", "decreasing", "gaps", "single", "saturated", "edges", "repeats")


def gen_column(rng, n, fw, notch=0.0, mode=None):
    mode = mode or str(rng.choice(IMAGE_MODES))
    most = np.log10(fw)
    if mode == "flat":
        x = np.full(n, 10 ** rng.uniform(min(0, most - 2), most))
    elif mode == "uniform":
        x = rng.uniform(0, fw, n)
    elif mode == "log":
        x = 10 ** rng.uniform(min(-2, most - 4), most, n)
    elif mode == "sparse":
        x = np.where(rng.random(n) < 0.35, 10 ** rng.uniform(min(-1, most - 3), most, n), 0)
    elif mode == "levels":
        x = rng.integers(0, 5, n) * (fw / 5.0) + (notch if rng.random() < 0.5 else 0)
    elif mode == "decreasing":
        x = np.sort(rng.uniform(0, fw, n))[::-1]
    elif mode == "gaps":
        x = rng.uniform(0, fw, n) * (np.arange(n) % int(rng.integers(2, 5)) == 0)
    elif mode == "single":
        x = np.zeros(n)
        x[rng.integers(n)] = 10 ** rng.uniform(min(0, most - 2), most)
    elif mode == "edges":       # exactly on, just above and just below every special value
        x = rng.choice([0.0, notch, notch * (1 + 1e-5), fw, fw * (1 - 1e-5), fw * (1 + 1e-5), 0.5 * (fw + notch), 1e-3], n)
    elif mode == "repeats":     # few values, each many times in a row
        x = np.repeat(rng.choice([0.0, 0.2, 0.5, 0.9], n), rng.integers(1, 4, n))[:n] * fw
    else:
        x = rng.uniform(0.8, 1.6, n) * fw
    return [r6(v) for v in x]


def gen_image(rng, rows, cols, c, mode=None):
    fw = min_well(c)
    no = c.get("notch", 0.0)
    no = max(no) if isinstance(no, list) else no
    return [list(t) for t in zip(*[gen_column(rng, rows, fw, no, mode) for _ in range(cols)])]


def scaled(v, f):
    return [scaled(x, f) for x in v] if isinstance(v, (list, tuple)) else r6(v * f)


def in_units(groups, charge, time):
    """the same species with charge and time expressed in other units"""
    return [dict(g, species=[[r6(d * charge), r6(t * time), x if g["kind"] == "continuum" else r6(x * time)]
                             for d, t, x in g["species"]]) for g in groups]


def gen_units(rng):
    """now and then a case is written in other units than electrons and transfers"""
    if rng.random() < 0.92:
        return 1.0, 1.0
    return float(10.0 ** int(rng.integers(-3, 7))), float(10.0 ** int(rng.integers(-9, 10)))


def gen_dwell(rng, n):
    return [1.0] if n == 1 else [r6(x) for x in rng.uniform(0.1, 1.0, n)]


def is_abundant(c, groups):
    """no cloud can ever be short of electrons: linear well filling, fewer traps than electrons"""
    p = c["power"]
    ok = all(x == 1.0 for x in (p if isinstance(p, list) else [p]))
    return ok and sum(sp[0] for g in groups for sp in g["species"]) <= 0.5 * min_well(c)

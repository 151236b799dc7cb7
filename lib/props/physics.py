"""C01-C03, C22-C27, C30: charge bookkeeping of whole readouts, and the physical ingredients"""
import math

import numpy as np

import refreadout as R
import spec as S
from harness import KnownFinding, Prop, Skip, Violation, valid_call


def AC():
    import arcticpy
    return arcticpy


def base_case(rng, rows=None, cols=1, n_phases=None, regime=None, kinds=("slow", "instant"), n_groups=1, tau=(0.1, 30.0),
              mode=None, dens=None, n_species=3):
    """ccd + traps + image of an ordinary readout. regime 'any' or 'abundant'"""
    n_phases = n_phases or S.phases(rng, (1, 1, 1, 2, 3, 4))
    regime = regime or str(rng.choice(["any", "abundant"]))
    c = S.gen_ccd(rng, n_phases, linear=regime == "abundant")
    if kinds != ("continuum",) and rng.random() < 0.04:
        n_species = 7
    f = dens or float(rng.choice([0.001, 0.01, 0.1, 0.4] if regime == "abundant" else [0.001, 0.01, 0.3, 3.0]))
    groups = S.gen_groups(rng, S.min_well(c) * f, kinds, n_groups, tau, n_species)
    rows = rows or int(rng.integers(2, 11))
    image, dwell = S.gen_image(rng, rows, cols, c, mode), S.gen_dwell(rng, n_phases)
    q, t = S.gen_units(rng)
    c = dict(c, full_well=S.scaled(c["full_well"], q), notch=S.scaled(c["notch"], q))
    return {"ccd": c, "groups": S.in_units(groups, q, t), "roe": {"type": "std", "dwell": S.scaled(dwell, t)},
            "image": S.scaled(image, q), "regime": regime}


def run_parallel(c, image=None, **over):
    ac = AC()
    k = S.kwargs(ac, dict(c, **{a: b for a, b in over.items() if a in ("express", "offset", "window", "time_window", "roe",
                                                                     "groups", "ccd")}))
    return valid_call(ac.add_cti, S.img(c["image"] if image is None else image), **k)


def beyond(c, rows):
    """Most that can trail by more than so many rows, as a share of the charge.

    An electron meets at most one transfer a row, each captures it with at most the share f of the cloud that there
    are traps for, and each capture costs it a row (two with several phases) and then a geometric number (Chernoff)."""
    well = min(np.atleast_1d(c["ccd"]["full_well"]))
    species = [s for g in c["groups"] for s in g["species"]]
    f = min(1.0, sum(s[0] for s in species) / well)
    q = math.exp(-sum(c["roe"]["dwell"]) / max(s[1] for s in species))
    d, n = (1 if len(c["roe"]["dwell"]) == 1 else 2), len(c["image"]) + c.get("offset", 0)
    best = 0.0
    for lz in np.linspace(1e-3, 0.999 * min(-math.log(max(q, 1e-12)), 20.0), 200):
        z = math.exp(lz)
        best = min(best, n * math.log1p(f * (z ** d * (1 - q) / (1 - q * z) - 1)) - rows * lz)
    return math.exp(best)


class C01(Prop):
    id = "C01"
    quick, thorough = 1920, 48000
    rule = ("random CCD (1-4 phases), one trap group of 1-3 species (two groups only where clouds cannot run short of "
            "electrons), random columns; non-trivial when traps removed or moved more than 1e-6 of the charge")
    required = {"moved": 100, "scarce": 20, "recapture": 20, "long_tail": 40}
    assumptions = ["the reference model's count of electrons still trapped when the readout ends is used for the exact balance",
                   "several trap groups competing for too few electrons are listed as a known finding and excluded"]
    fixed_cases = ({"known": "two-groups-scarce"},)

    def gen(self, rng, i):
        kind = ["ledger", "ledger", "ledger", "tail"][i % 4]
        if kind == "tail":
            c = base_case(rng, rows=int(rng.integers(1, 6)), regime="abundant", tau=(0.05, 0.5), n_phases=int(rng.choice([1, 1, 3])),
                          dens=float(rng.choice([0.001, 0.01, 0.02, 0.05, 0.05, 0.2])))
            for r in range(22):
                c["image"].append([0.0])
        else:
            reg = str(rng.choice(["any", "abundant"]))
            c = base_case(rng, regime=reg, n_groups=2 if reg == "abundant" and rng.random() < 0.5 else 1,
                          dens=float(rng.choice([0.01, 0.3, 3.0, 3.0, 10.0])) if reg == "any" else None)
            for r in range(int(rng.integers(0, 6))):
                c["image"].append([0.0])
            c["offset"] = S.count(rng, (0, 0, 2), 25)
        c["kind"] = kind
        return c

    def known(self, m):
        ac = AC()
        # two managers are offered the same electrons of one small cloud and take more than it holds
        im = np.zeros((14, 1))
        im[1] = 150.0
        traps = [[ac.Trap(600.0, 0.8)], [ac.Trap(600.0, 1.6)]]
        out = valid_call(ac.add_cti, im, parallel_traps=traps,
                         parallel_ccd=ac.CCD(full_well_depth=1e3, well_fill_power=0.5, well_notch_depth=100.0))
        m.ev("known_probe")
        if (np.cumsum(out) - np.cumsum(im)).max() > 1e-9 * im.sum():
            raise KnownFinding("two-groups-scarce: charge created")

    def run(self, c, m):
        if "known" in c:
            return self.known(m)
        im = S.img(c["image"])
        out = run_parallel(c)
        tot = im.sum()
        # heights are only known to 1e-12 of the pixel's volume
        lost = 1e-11 * sum(s[0] for g in c["groups"] for s in g["species"]) * len(c["image"])
        eps = 1e-9 * max(tot, 1.0) + lost
        m.check(out.shape == im.shape, "shape changed")
        # nothing is created, nothing moves towards the readout
        gain = np.cumsum(out[:, 0]) - np.cumsum(im[:, 0])
        m.check(gain.max() <= eps, f"{gain.max():.6g} electrons appeared by row {int(gain.argmax())}", out=out.tolist())
        moved = np.abs(out - im).sum()
        m.ev("moved", moved > 1e-6 * max(tot, 1e-12))
        m.nt(moved > 1e-6 * max(tot, 1e-12))
        if c["kind"] == "tail":
            late = beyond(c, 22)
            m.ev("long_tail", late < 1e-5)
            m.check(abs(out.sum() - tot) <= (1e-6 + late) * max(tot, 1e-6) + lost,
                    f"{tot - out.sum():.6g} of {tot:.6g} electrons lost although every trail ends inside the image")
            return
        st = {}
        R.readout([im[:, 0].tolist()], c["ccd"], c["groups"], c["roe"], 0, c.get("offset", 0), stats=st)
        m.ev("scarce", st.get("scarce", 0) > 0)
        m.ev("recapture", st.get("recapture", 0) > 0)
        left = st.get("left", 0.0) + st.get("outside", 0.0)
        m.check(abs(tot - out.sum() - left) <= 1e-7 * max(tot, 1.0) + lost,
                f"balance broken: in {tot:.9g}, out {out.sum():.9g}, still trapped or beyond the last row {left:.9g}")


class C02(Prop):
    id = "C02"
    quick, thorough = 1440, 36000
    rule = ("pairs of images equal up to a random row and different behind it, and truncations; any express, offset and "
            "phase count; non-trivial when the outputs do differ behind the row")
    required = {"pairs": 100, "truncated": 40, "zero": 20, "leading": 40}

    def gen(self, rng, i):
        c = base_case(rng, rows=S.size(rng, 2, 11))
        n = len(c["image"])
        c["k"] = int(rng.integers(0, n))
        c["offset"] = S.count(rng, (0, 0, 1, 4), 25)
        c["kind"] = ["pair", "pair", "trunc", "leading"][i % 4]
        c["express"] = 0 if c["kind"] == "trunc" or rng.random() < 0.5 else int(rng.integers(1, n + 1))
        c["roe"]["first"] = bool(rng.random() < 0.7)
        if rng.random() < 0.15:
            c["roe"] = {"type": "ci", "dwell": c["roe"]["dwell"], "n_transfers": int(rng.integers(1, 8))}
            c["kind"] = "pair"
        c["other"] = S.gen_image(rng, n, 1, c["ccd"])
        return c

    def run(self, c, m):
        n, k = len(c["image"]), c["k"]
        sc = max(S.min_well(c["ccd"]), 1.0)
        a = run_parallel(c)
        if c["kind"] == "trunc":
            if c["roe"].get("first", True) is False:
                c = dict(c, roe=dict(c["roe"], first=True))
                a = run_parallel(c)
            b = run_parallel(c, image=c["image"][:k + 1])
            m.ev("truncated")
            m.nt(np.abs(a - S.img(c["image"])).max() > 1e-9)
            m.close(a[:k + 1], b, f"rows 0..{k} depend on whether rows behind them are part of the image", 1e-12, sc)
            return
        if c["kind"] == "leading":
            im = [[0.0]] * k + c["image"][k:]
            b = run_parallel(c, image=im)
            m.ev("leading")
            m.nt(np.abs(b - S.img(im)).max() > 1e-9)
            m.check((b[:k] == 0).all(), "charge appeared in empty rows between the readout and the first charge", out=b.tolist())
            z = run_parallel(c, image=[[0.0]] * n)
            m.ev("zero")
            m.check((z == 0).all(), "an empty image did not stay empty", out=z.tolist())
            return
        im = c["image"][:k + 1] + c["other"][k + 1:]
        b = run_parallel(c, image=im)
        m.ev("pairs")
        m.nt(k + 1 < n and np.abs(a[k + 1:] - b[k + 1:]).max() > 1e-9)
        m.close(a[:k + 1], b[:k + 1], f"rows 0..{k} depend on charge further from the readout", 1e-12, sc)


def any_case(rng, max_rows=9, cols=2, groups2=True, types=("std", "std", "ci", "pump")):
    """anything add_cti's documentation allows for one direction"""
    typ = str(rng.choice(types))
    nph = S.phases(rng, (1, 1, 2, 3, 4)) if typ != "pump" else S.phases(rng, (1, 2, 3, 4))
    c = S.gen_ccd(rng, nph)
    groups = S.gen_groups(rng, S.min_well(c) * float(rng.choice([0.001, 0.01, 0.3, 2.0])),
                          n_groups=2 if groups2 and rng.random() < 0.2 else 1)
    roe = {"type": typ, "dwell": S.gen_dwell(rng, nph) if typ != "pump" else [S.r6(x) for x in rng.uniform(0.1, 1, 2 * nph)]}
    rows, ncol = S.size(rng, 1, max_rows + 1), int(rng.integers(1, cols + 1))
    if typ == "std":
        roe.update(first=bool(rng.random() < 0.6), between=bool(rng.integers(2)))
    if typ == "pump":
        roe.update(n_pumps=1 + S.count(rng, range(5), 40), first=bool(rng.integers(2)))
    else:
        roe.update(away=bool(rng.random() < 0.7), int=bool(rng.random() < 0.3))
    if typ == "ci":
        roe.update(n_transfers=None if rng.random() < 0.5 else int(rng.integers(1, 12)), between=bool(rng.integers(2)))
    off = S.count(rng, (0, 0, 1, 3), 25) if typ != "pump" else 0
    c = {"ccd": c, "groups": groups, "roe": roe, "offset": off, "express": int(rng.integers(0, rows + off + 2)),
         "image": S.gen_image(rng, rows, ncol, c)}
    if rng.random() < 0.3:
        a = int(rng.integers(0, rows))
        c["window"] = [a, int(rng.integers(a + 1, rows + 1))]
    if typ == "pump" and rng.random() < 0.6:
        c["window"] = int(rng.integers(rows))
    if typ != "pump" and rng.random() < 0.25:
        a = int(rng.integers(0, rows + off))
        c["time_window"] = [a, int(rng.integers(a + 1, rows + off + 1))]
    return c


class C03(Prop):
    id = "C03"
    quick, thorough = 1680, 42000
    rule = ("every documented mode (standard, charge injection, trap pumping), random phases, dtype, express, offset, "
            "windows, 1-2 trap groups of any density up to twice the well; non-trivial when the image changes")
    required = {"std": 100, "ci": 40, "pump": 40, "clamped_to_zero": 5, "over_full_well": 10}

    def gen(self, rng, i):
        c = any_case(rng)
        c["dtype"] = str(rng.choice(["float64", "float64", "float32", "int64", "fortran", "sliced"]))
        return c

    def run(self, c, m):
        ac = AC()
        im = S.img(c["image"])
        if c["dtype"] == "fortran":
            im = np.asfortranarray(im)
        elif c["dtype"] == "sliced":
            big = np.zeros((im.shape[0] * 2, im.shape[1] * 2))
            big[::2, ::2] = im
            im = big[::2, ::2]
        elif c["dtype"] != "float64":
            im = im.astype(c["dtype"])
        out = valid_call(ac.add_cti, im, **S.kwargs(ac, c))
        m.ev(c["roe"]["type"])
        m.check(isinstance(out, np.ndarray) and out.shape == im.shape, "shape changed")
        m.check(out.dtype == np.float64, f"output type {out.dtype}")
        m.check(np.isfinite(out).all(), "not finite", out=out.tolist())
        m.check((out >= 0).all(), "negative charge", out=out.tolist())
        m.check(out.flags.writeable, "output cannot be written")
        m.ev("clamped_to_zero", bool(((out == 0) & (im > 0)).any()))
        m.ev("over_full_well", bool((im > S.min_well(c["ccd"])).any()))
        m.nt(np.abs(out - im).max() > 1e-9)
        # the type and memory layout of the same values makes no difference
        if c["dtype"] != "float64":
            b = valid_call(ac.add_cti, np.ascontiguousarray(im, dtype=np.float64), **S.kwargs(ac, c))
            m.ev("layouts")
            m.check((out == b).all(), f"result depends on the array's type or layout ({c['dtype']})", got=out.tolist(), expected=b.tolist())


class C22(Prop):
    id = "C22"
    quick, thorough = 4800, 120000
    rule = "random CCDs with 1-5 phases, scalar or per-phase parameters; electrons below, in and above notch and full well"
    required = {"notch": 50, "saturated": 50, "power": 100, "bad_length": 50, "set_afterwards": 1000, "nearly_normalised": 50}
    oracle = "clip((n-notch)/(full-notch),0,1)**power"

    def gen(self, rng, i):
        n = int(rng.integers(1, 6))
        fw = logu = S.logu(rng, 10, 1e6)
        pick = lambda f: [f() for _ in range(n)] if rng.random() < 0.5 else f()
        well, notch = pick(lambda: S.r6(fw * rng.uniform(0.5, 2))), pick(lambda: S.r6(fw * rng.choice([0, 0.01, 0.3])))
        power = pick(lambda: S.r6(rng.uniform(0.1, 1.5)))
        if n > 1 and rng.random() < 0.4:
            # phases that agree in all but one respect, or that hold as much above the notch
            k, j, lo = int(rng.integers(4)), rng.integers(0, 2, n), S.r6(0.3 * fw)
            well, notch, power = S.r6(fw), S.r6(0.1 * fw), S.r6(rng.uniform(0.1, 1.5))
            well = [S.r6(well + lo * x) for x in j] if k in (0, 3) else well
            notch = [S.r6(notch + lo * x) for x in j] if k in (1, 3) else notch
            power = [(power, 0.7)[x] for x in j] if k == 2 else power
        widths = [S.r6(x) for x in rng.uniform(0.01, 100, n)]
        if rng.random() < 0.25:  # rounded by hand: they add up to almost one
            widths = [max(round(w / sum(widths), 2), 0.01) for w in widths]
            widths[int(rng.integers(n))] += float(rng.choice([0.0, 1e-3, 5e-3, -1e-3]))
        return {"widths": widths, "full_well": well, "notch": notch, "power": power,
                "electrons": sorted(S.r6(x) for x in list(rng.uniform(0, 2.5 * fw, 12)) + list(10 ** rng.uniform(-6, np.log10(fw), 8)))}

    def run(self, c, m):
        ac = AC()
        n = len(c["widths"])
        ccd = valid_call(ac.CCD, fraction_of_traps_per_phase=c["widths"], full_well_depth=c["full_well"],
                         well_notch_depth=c["notch"], well_fill_power=c["power"])
        at = lambda v, p: v[p] if isinstance(v, list) else v
        m.check(ccd.n_phases == n, "number of phases")
        m.ev("nearly_normalised", 1e-6 < abs(sum(c["widths"]) - 1) < 0.1)
        m.close(sum(ccd.fraction_of_traps_per_phase), 1.0, "fractional widths do not add up to 1", 1e-9)
        m.close(ccd.fraction_of_traps_per_phase, np.array(c["widths"]) / sum(c["widths"]), "fractional widths", 1e-9)
        m.nt(True)
        for p in range(n):
            fw, no, po = at(c["full_well"], p), at(c["notch"], p), at(c["power"], p)
            f = valid_call(ccd.well_filling_function, p)
            last = -1.0
            one = valid_call(ac.CCDPhase, ccd, p)
            for e in c["electrons"] + [fw, 3 * fw, 0.0, no]:
                v = valid_call(f, e)
                ref = min(max((e - no) / (fw - no), 0.0), 1.0) ** po if e else 0.0
                m.close(v, ref, f"volume of {e} electrons in phase {p}", 1e-12, 1.0)
                m.close(valid_call(ccd.cloud_fractional_volume_from_n_electrons_and_phase, e, p), v, "ways of asking for the volume", 1e-12, 1.0)
                m.close(valid_call(one.cloud_fractional_volume_from_n_electrons, e), v, "ways of asking for the volume", 1e-12, 1.0)
                m.check(0 <= v <= 1, "volume outside 0..1")
                m.ev("notch", 0 < e <= no)
                m.ev("saturated", e >= fw)
                m.ev("power", no < e < fw)
            for e in sorted(c["electrons"]):
                v = f(e)
                m.check(v >= last, "a larger cloud fills a smaller volume")
                last = v
            for a, b in (("full_well_depth", fw), ("well_notch_depth", no), ("well_fill_power", po)):
                m.check(getattr(ccd, a)[p] == b and getattr(one, a) == b, f"{a} of phase {p}")
            m.close(one.fraction_of_traps_per_phase, ccd.fraction_of_traps_per_phase[p], f"width of phase {p}", 1e-12)
            m.check(ccd.well_bloom_level[p] == fw == one.well_bloom_level, f"bloom level of phase {p} is not the full well by default")
        # a CCD whose parameters were set one by one afterwards is the same CCD
        late = ac.CCD(full_well_depth=123.0, well_notch_depth=4.0, well_fill_power=0.9)
        held = valid_call(late.well_filling_function, 0)
        for e in c["electrons"][::3]:
            m.close(valid_call(held, e), min(max((e - 4.0) / 119.0, 0.0), 1.0) ** 0.9 if e else 0.0, "volume in another device", 1e-12, 1.0)
        late.fraction_of_traps_per_phase = list(c["widths"])
        late.full_well_depth, late.well_notch_depth, late.well_fill_power = c["full_well"], c["notch"], c["power"]
        m.check(late.n_phases == n, "number of phases set afterwards")
        m.close(late.fraction_of_traps_per_phase, ccd.fraction_of_traps_per_phase, "fractional widths set afterwards", 1e-12)
        for p in range(n):
            for e in c["electrons"][::3]:
                m.close(valid_call(valid_call(late.well_filling_function, p), e), valid_call(ccd.well_filling_function(p), e),
                        "parameters set at construction and afterwards", 1e-12, 1.0)
                m.ev("set_afterwards")
        bl = [S.r6(0.5 * at(c["full_well"], p)) for p in range(n)]
        for given, want in ((bl, bl), (bl[0], [bl[0]] * n)):
            m.check(list(valid_call(ac.CCD, fraction_of_traps_per_phase=c["widths"], well_bloom_level=given).well_bloom_level) == want, "bloom level given")
        for k in ("full_well_depth", "well_notch_depth", "well_fill_power", "well_bloom_level"):
            try:
                ac.CCD(fraction_of_traps_per_phase=c["widths"], **{k: [1.0] * (n + 1)})
            except ValueError:
                m.ev("bad_length")
            else:
                raise Violation(f"{k} with the wrong number of phases was accepted")


class C23(Prop):
    id = "C23"
    quick, thorough = 3600, 90000
    rule = "random species sets with instant, fast, comparable and slow capture, dwell times over six decades"
    required = {"instant": 50, "slow": 100, "semigroup": 200}

    def gen(self, rng, i):
        w = 1e4 if rng.random() < 0.15 else 1.0      # extreme ratios of capture, release and dwell times
        return {"species": [[S.logu(rng, 1e-3, 1e3), S.logu(rng, 1e-2 / w, 1e3 * w),
                             float(rng.choice([0.0, S.logu(rng, 1e-4 / w, 1e2 * w)]))] for _ in range(int(rng.integers(1, 5)))],
                "t1": S.logu(rng, 1e-4 / w, 1e2 * w), "t2": S.logu(rng, 1e-4 / w, 1e2 * w), "n": S.logu(rng, 1e-2, 1e5)}

    def run(self, c, m):
        ac = AC()
        sp, t1, t2 = c["species"], c["t1"], c["t2"]
        traps = [ac.Trap(density=d, release_timescale=r, capture_timescale=k) for d, r, k in sp]
        tm = ac.TrapManager(traps=traps, max_n_transfers=4)
        pr = lambda t: [np.asarray(x, float) for x in valid_call(tm.fill_probabilities_from_dwell_time, t)]
        (e1, f1, r1), (e2, f2, r2), (e3, f3, r3) = pr(t1), pr(t2), pr(t1 + t2)
        m.nt(True)
        for x in (e1, f1, r1, e2, f2, r2, e3, f3, r3):
            m.check(x.shape == (len(sp),), "one probability per species")
            m.check(((x >= -1e-15) & (x <= 1 + 1e-12)).all(), "probability outside 0..1", got=x.tolist())
        # staying in a pixel for t1 and then t2 is the same as staying for t1+t2
        m.close(e1 * f2 + (1 - e1) * e2, e3, "filling in two parts differs from filling at once", 1e-9, 1.0)
        m.close(f1 * f2 + (1 - f1) * e2, f3, "staying full in two parts differs from at once", 1e-9, 1.0)
        m.close(r1 * r2, r3, "release in two parts differs from release at once", 1e-9, 1.0)
        m.ev("semigroup", 3)
        for j, (d, rel, cap) in enumerate(sp):
            e = 1 / rel
            m.close(r1[j], math.exp(-e * t1), "release alone is exponential", 1e-9, 1.0)
            if cap == 0:
                m.ev("instant")
                m.check(e1[j] == 1 and f1[j] == 1, "instant capture does not fill every trap it reaches")
            else:
                m.ev("slow")
                k = 1 / cap
                m.close(e1[j], k / (k + e) * -math.expm1(-(k + e) * t1), "capture probability", 1e-9, 1.0)
                m.close(f1[j], (k + e * math.exp(-(k + e) * t1)) / (k + e), "stay-full probability", 1e-9, 1.0)
            t = traps[j]
            ff = valid_call(t.fill_fraction_from_time_elapsed, t1)
            m.close(ff, math.exp(-t1 / rel), "fill fraction after release", 1e-9, 1.0)
            if ff > 1e-200:
                m.close(valid_call(t.time_elapsed_from_fill_fraction, ff), t1, "time elapsed is not the inverse of the fill fraction", 1e-6, t1 + rel)
            m.close(valid_call(t.electrons_released_from_electrons_and_dwell_time, c["n"], t1), c["n"] * -math.expm1(-t1 / rel), "released electrons", 1e-12, c["n"])
            m.close(valid_call(t.electrons_released_from_time_elapsed_and_dwell_time, t1, t2),
                    math.exp(-t1 / rel) - math.exp(-(t1 + t2) / rel), "released fraction", 1e-9, 1.0)
            ti = ac.TrapInstantCapture(density=d, release_timescale=rel)
            m.close(valid_call(ti.fill_fraction_from_time_elapsed, t2), math.exp(-t2 / rel), "fill fraction (instant capture species)", 1e-9, 1.0)
            # ellipticity scales with the density and adds up over species
            u = ac.Trap(density=2 * d, release_timescale=rel).delta_ellipticity
            m.close(u, 2 * valid_call(lambda: t.delta_ellipticity), "ellipticity is not proportional to density", 1e-9, abs(u) + 1e-12)
            x = math.log(rel)
            m.close(t.delta_ellipticity, d * (0.05333 + 0.03357 * math.atan((x - 1.628) / 0.2951)
                                              + 0.09901 * math.exp(-(x - 0.4553) ** 2 / (2 * 0.4132 ** 2))), "ellipticity formula", 1e-9, d)
        # omitted arguments are the documented defaults
        a, b = ac.Trap(), ac.TrapInstantCapture()
        m.check([a.density, a.release_timescale, a.capture_timescale, a.surface] == [0.13, 0.25, 0, False], "default species")
        m.check([b.density, b.release_timescale, b.capture_timescale, b.surface] == [0.13, 0.25, 0, False], "default instant-capture species")
        for t in (a, b, traps[0]):
            m.close(valid_call(t.electrons_released_from_electrons_and_dwell_time, c["n"]),
                    valid_call(t.electrons_released_from_electrons_and_dwell_time, c["n"], 1), "default dwell time", 1e-12)
            m.close(valid_call(t.electrons_released_from_time_elapsed_and_dwell_time, t1),
                    valid_call(t.electrons_released_from_time_elapsed_and_dwell_time, t1, 1), "default dwell time", 1e-12, 1.0)
        m.close(valid_call(lambda: tm.delta_ellipticity), sum(t.delta_ellipticity for t in traps), "ellipticity does not add up", 1e-9, 1 + abs(tm.delta_ellipticity))


def lognormal_integral(f, mu, s):
    """E[f(tau)] for a log-normal tau with median mu, by the trapezoid rule in log tau (spectrally accurate)"""
    x = np.linspace(-9.5, 9.5, 1501)
    w = np.exp(-x * x / 2)
    return float((w * f(mu * np.exp(s * x))).sum() / w.sum())


class C24(Prop):
    id = "C24"
    quick, thorough = 720, 18000
    rule = "log-normal and user-supplied lifetime distributions, median over eight decades, width 0.01-2; times 0-10000 medians"
    required = {"lognormal": 60, "custom": 30, "inverse": 100}

    def gen(self, rng, i):
        return {"kind": "custom" if i % 4 == 0 else "lognormal", "mu": S.logu(rng, 1e-3, 1e5), "sigma": S.logu(rng, 1e-2, 2.0),
                "times": [0.0] + [S.logu(rng, 1e-3, 30) for _ in range(3)] + [S.logu(rng, 30, 1e4)], "dwell": S.logu(rng, 1e-2, 10),
                "fills": [S.r6(x) for x in rng.uniform(0.01, 0.999, 2)]}

    def run(self, c, m):
        ac = AC()
        mu, s = c["mu"], c["sigma"]
        if c["kind"] == "lognormal":
            t = valid_call(ac.TrapLogNormalLifetimeContinuum, density=3.0, release_timescale_mu=mu, release_timescale_sigma=s)
            E = lambda f: lognormal_integral(f, mu, s)
        else:
            # gamma-like distribution with mean mu: shape a
            a = 1 + 1 / s
            th = mu / a
            lg = math.lgamma(a)

            def pdf(x, mu_, sigma_):
                with np.errstate(all="ignore"):
                    return np.exp((a - 1) * np.log(x / th) - x / th - lg) / th

            t = valid_call(ac.TrapLifetimeContinuumAbstract, density=3.0, distribution_of_traps_with_lifetime=pdf,
                           release_timescale_mu=mu, release_timescale_sigma=s)
            x = np.exp(np.linspace(math.log(th) - 40, math.log(th * (a + 12 * math.sqrt(a) + 60)), 6001))
            w = pdf(x, mu, s) * x
            E = lambda f: float((w * f(x)).sum() / w.sum())
        m.ev(c["kind"])
        m.nt(True)
        tol = 2e-7
        prev = None
        for u in sorted(c["times"]):
            te = u * mu
            got = valid_call(t.fill_fraction_from_time_elapsed, te)
            m.close(got, E(lambda tau: np.exp(-te / tau)), f"fill fraction after {u} medians", tol, 1.0)
            m.check(prev is None or got <= prev + 1e-9, "fill fraction grows with time")
            prev = got
            rel = valid_call(t.electrons_released_from_time_elapsed_and_dwell_time, te, c["dwell"] * mu)
            m.close(rel, got - valid_call(t.fill_fraction_from_time_elapsed, te + c["dwell"] * mu), "released fraction is not the drop in fill fraction", tol, 1.0)
        m.close(valid_call(t.electrons_released_from_time_elapsed_and_dwell_time, mu),
                valid_call(t.electrons_released_from_time_elapsed_and_dwell_time, mu, 1), "default dwell time", 1e-9, 1.0)
        for f in c["fills"]:
            te = valid_call(t.time_elapsed_from_fill_fraction, f)
            m.ev("inverse")
            m.check(te >= 0, "negative elapsed time")
            m.close(valid_call(t.fill_fraction_from_time_elapsed, te), f, "elapsed time is not the inverse of the fill fraction", 1e-6, 1.0)


class C25(Prop):
    id = "C25"
    quick, thorough = 1200, 24000
    rule = "random Julian dates from launch to 2040 with emphasis on the configuration changes; dates before launch"
    required = {"before_cooling": 40, "after_repair": 40, "refused": 20, "readout": 10}
    fixed_cases = tuple({"date": float(d), "readout": False} for d in (2452334.5, 2453919.999, 2453920, 2453920.001, 2454967.999, 2454968, 2454968.5))

    def gen(self, rng, i):
        if i % 5 == 0:
            return {"date": float(rng.choice([2453920.0, 2454968.0])) + float(rng.uniform(-3, 3)), "readout": False}
        if i % 5 == 1:
            return {"date": 2452334.5 - float(10 ** rng.uniform(-6, 4)), "readout": False}
        return {"date": float(rng.uniform(2452334.5, 2466000)), "readout": i % 20 == 2}

    def run(self, c, m):
        ac = AC()
        d = c["date"]
        if d < 2452334.5:
            try:
                ac.model_for_HST_ACS(date=d)
            except Exception:
                m.ev("refused")
                m.nt(True)
                return
            raise Violation("a date before launch was accepted")
        traps, ccd, roe = valid_call(ac.model_for_HST_ACS, date=d)
        dt = d - 2452334.5
        tot = 0.017845 + 3.5488e-4 * dt if d < 2454968 else (-0.246591 + 0.000558980 * dt) * 1.011
        dens = np.array([1.27, 3.38, 2.85]) / 7.5 * tot
        T0 = 273.15 - 81
        T = 273.15 - 77 if d < 2453920 else T0
        rel = np.array([0.74, 7.7, 37.0])
        if T != T0:
            rel = rel * (T / T0) * np.exp(np.array([0.31, 0.34, 0.44]) / (8.617343e-5 * T0 * T) * (T - T0))
        m.ev("before_cooling", d < 2453920)
        m.ev("after_repair", d >= 2454968)
        m.nt(True)
        m.check(len(traps) == 3, "three species")
        m.close([t.density for t in traps], dens, "trap densities", 1e-9)
        m.check(all(t.density > 0 for t in traps), "trap density not positive")
        m.close([t.release_timescale for t in traps], rel, "release times", 1e-9)
        m.check(all(t.capture_timescale == 0 for t in traps), "capture is not instant")
        m.check(all(isinstance(t, ac.TrapInstantCapture) for t in traps), "species class")
        m.check(list(ccd.full_well_depth) == [84700] and list(ccd.well_fill_power) == [0.478] and list(ccd.well_notch_depth) == [0], "well model")
        m.check(list(roe.dwell_times) == [1] and ccd.n_phases == 1, "clocking")
        later = valid_call(ac.model_for_HST_ACS, date=d + 10)[0]
        if (d < 2454968) == (d + 10 < 2454968):
            m.check(all(b.density > a.density for a, b in zip(traps, later)), "trap density does not grow with time")
        if c["readout"]:
            im = np.zeros((8, 1))
            im[2] = 2000.0
            out = valid_call(ac.add_cti, im, parallel_traps=traps, parallel_roe=roe, parallel_ccd=ccd)
            ref = np.array(R.readout([im[:, 0].tolist()], {"full_well": 84700, "power": 0.478, "notch": 0},
                                     [{"kind": "instant", "species": [[a, b, 0.0] for a, b in zip(dens.tolist(), rel.tolist())]}])).T
            m.ev("readout")
            m.close(out, ref, "readout with the preset", 1e-8)
            back = valid_call(ac.remove_cti, out, 6, parallel_traps=traps, parallel_roe=roe, parallel_ccd=ccd)
            m.close(back, im, "correction with the preset", 1e-3, 2000.0)


class C26(Prop):
    id = "C26"
    quick, thorough = 1500, 30000
    rule = "random species lists, image shapes and seeds"
    required = {"drawn": 500, "nonzero": 200, "default_seed": 60, "spread": 200}

    def gen(self, rng, i):
        sp = [[S.logu(rng, 1e-3, 20 if rng.random() < 0.8 else 1e5), S.logu(rng, 0.1, 50), float(rng.choice([0.0, 0.3]))]
              for _ in range(int(rng.integers(1, 4)))]
        if len(sp) > 1 and rng.random() < 0.3:
            sp[-1][0] = sp[0][0]
        return {"species": sp,
                "shape": [int(rng.integers(1, 200)), int(rng.integers(1, 30))] if rng.random() < 0.95 else
                         [int(rng.integers(1, 20)), int(rng.integers(1000, 4000))], "seed": int(rng.choice([0, 0, 1, rng.integers(0, 2 ** 31), rng.integers(0, 2 ** 31)])),
                "other": int(rng.integers(0, 1000))}

    def run(self, c, m):
        ac = AC()
        mk = lambda: [ac.Trap(density=d, release_timescale=r, capture_timescale=k) for d, r, k in c["species"]]
        traps = mk()
        np.random.seed(c["other"])
        a = valid_call(ac.Trap.poisson_trap, trap=traps, shape=tuple(c["shape"]), seed=c["seed"])
        np.random.seed(c["other"] + 1)
        kw = {} if c["seed"] == 0 else {"seed": c["seed"]}        # 0 is the default seed
        b = valid_call(ac.Trap.poisson_trap, trap=mk(), shape=tuple(c["shape"]), **kw)
        m.ev("default_seed", c["seed"] == 0)
        rows, cols = c["shape"]
        n = len(c["species"])
        m.check(len(a) == n * cols, "one set of species per column")
        m.check([t.density for t in a] == [t.density for t in b], "the same seed gave different traps")
        m.ev("drawn", len(a))
        m.nt(True)
        for i, t in enumerate(a):
            d, r, k = c["species"][i % n]
            cnt = t.density * rows
            m.check(t.density >= 0 and abs(cnt - round(cnt)) < 1e-6 * max(1, cnt), "not a whole number of traps in the column")
            m.check(t.release_timescale == r and t.capture_timescale == k, "timescales of the species changed")
            m.ev("nonzero", t.density > 0)
        for j, (d, r, k) in enumerate(c["species"]):
            lam = d * rows * cols
            s = sum(t.density * rows for t in a[j::n])
            m.check(abs(s - lam) <= 8 * math.sqrt(lam) + 12, f"{s} traps drawn where {lam} are expected")
            k = [round(t.density * rows) for t in a[j::n]]
            if cols >= 10 and d * rows >= 30:      # less likely than 1e-10 for independent draws
                m.ev("spread")
                m.check(len(set(k)) > 1, f"the same number of traps in all {cols} columns: {k[0]}")
                for q in range(j):
                    m.check(c["species"][q][0] != d or k != [round(t.density * rows) for t in a[q::n]], "two species share their draws")
                v = sum((x - d * rows) ** 2 for x in k) / (d * rows)
                m.check(0.01 * cols < v < 8 * cols, f"numbers of traps per column scatter {v / cols:.3g} times as much as Poisson numbers", got=k)
        m.check([t.density for t in traps] == [x[0] for x in c["species"]], "input species were modified")


class C27(Prop):
    id = "C27"
    quick, thorough = 1920, 48000
    rule = "one readout repeated in other units, with species permuted, split, merged, or joined by traps of zero density"
    KINDS = ("permute", "split", "zero", "time", "electrons", "widths", "nesting", "phase_uniform")
    required = {k: 30 for k in KINDS}

    def gen(self, rng, i):
        k = self.KINDS[i % len(self.KINDS)]
        c = base_case(rng, rows=S.size(rng, 2, 9), cols=1, n_phases=S.phases(rng, (2, 3, 4)) if k == "widths" else None)
        c["kind"] = k
        c["factor"] = S.logu(rng, 0.01, 100) if rng.random() < 0.5 else S.logu(rng, 1e-9, 1e9)
        if k == "electrons" and rng.random() < 0.3:      # coulombs
            c["factor"] = 1.602177e-19
        c["perm"] = [int(x) for x in rng.permutation(len(c["groups"][0]["species"]))]
        c["express"] = S.count(rng, range(4), 12)
        c["share"] = S.r6(rng.uniform(0.1, 0.9))
        return c

    def run(self, c, m):
        ac = AC()
        a = run_parallel(c)
        im = S.img(c["image"])
        sc = max(im.max(), 1e-6)
        g = c["groups"][0]
        k, f = c["kind"], c["factor"]
        sub = lambda sp: dict(c, groups=[{"kind": g["kind"], "species": sp}])
        if k == "permute":
            b = run_parallel(sub([g["species"][j] for j in c["perm"]]))
        elif k == "split":
            q = c["share"]
            b = run_parallel(sub([[d * x, r, t] for d, r, t in g["species"] for x in (q, 1 - q)]))
        elif k == "zero":
            b = run_parallel(sub(g["species"] + [[0.0, 3.3, 0.0]]))
        elif k == "time":
            c2 = sub([[d, r * f, t * f] for d, r, t in g["species"]])
            c2["roe"] = dict(c["roe"], dwell=[x * f for x in c["roe"]["dwell"]])
            b = run_parallel(c2)
        elif k == "electrons":
            mul = lambda v: [x * f for x in v] if isinstance(v, list) else v * f
            c2 = sub([[d * f, r, t] for d, r, t in g["species"]])
            c2["ccd"] = dict(c["ccd"], full_well=mul(c["ccd"]["full_well"]), notch=mul(c["ccd"]["notch"]))
            b = run_parallel(c2, image=(im * f).tolist()) / f
        elif k == "widths":
            b = run_parallel(dict(c, ccd=dict(c["ccd"], fractions=[x * f for x in c["ccd"]["fractions"]])))
        elif k == "nesting":
            kw = S.kwargs(ac, c)
            flat = kw["parallel_traps"][0]
            kw["parallel_traps"] = flat
            b = valid_call(ac.add_cti, im, **kw)
            if len(flat) == 1:
                kw["parallel_traps"] = flat[0]
                m.close(valid_call(ac.add_cti, im, **kw), a, "a bare trap differs from a list of one", 1e-12, sc)
        else:
            # a phase without traps and an equivalent description with scalar / list parameters
            fr = c["ccd"].get("fractions", [1.0])
            lst = lambda v: v if isinstance(v, list) else [v] * len(fr)
            b = run_parallel(dict(c, ccd=dict(c["ccd"], full_well=lst(c["ccd"]["full_well"]), notch=lst(c["ccd"]["notch"]), power=lst(c["ccd"]["power"]))))
            if len(fr) == 1:
                # single numbers instead of lists of one
                kw = S.kwargs(ac, c)
                d = c["ccd"]
                kw["parallel_ccd"] = ac.CCD(fraction_of_traps_per_phase=1, full_well_depth=d["full_well"], well_notch_depth=d["notch"], well_fill_power=d["power"])
                kw["parallel_roe"] = ac.ROE(dwell_times=c["roe"]["dwell"][0])
                m.close(valid_call(ac.add_cti, im, **kw), a, "numbers differ from lists of one", 1e-12, sc)
        m.ev(k)
        m.nt(np.abs(a - im).max() > 1e-9 * sc)
        m.close(b, a, f"result changed under '{k}'", 1e-8, sc)


class C30(Prop):
    id = "C30"
    quick, thorough = 1440, 36000
    rule = "readouts in which no trap can act: none given, zero density, clouds inside the notch, all traps in unreachable phases"
    KINDS = ("none", "zero_density", "notch", "no_direction")
    required = {k: 40 for k in KINDS}

    def gen(self, rng, i):
        c = any_case(rng, types=("std", "std", "ci"))
        k = self.KINDS[i % 4]
        c["kind"] = k
        if k == "zero_density":
            for g in c["groups"]:
                for s in g["species"]:
                    s[0] = 0.0
        if k == "notch":
            no = S.r6(0.3 * S.min_well(c["ccd"]))
            c["ccd"]["notch"] = no
            c["image"] = [[S.r6(float(rng.uniform(0, 1)) * no) if rng.random() < 0.8 else no for _ in r] for r in c["image"]]
        c["zeros"] = bool(rng.integers(2))
        return c

    def run(self, c, m):
        ac = AC()
        im = S.img(c["image"])
        k = c["kind"]
        if k == "none":
            kw = S.kwargs(ac, c)
            kw["parallel_traps"] = None
            out = valid_call(ac.add_cti, im, **kw)
        elif k == "no_direction":
            out = valid_call(ac.add_cti, im)
            m.check(out is not im, "returned the caller's own array")
            out2 = valid_call(ac.remove_cti, im, 3)
            m.check((out2 == im).all(), "correcting without traps changed the image")
        else:
            out = valid_call(ac.add_cti, im, **S.kwargs(ac, c))
        m.ev(k)
        m.nt(im.max() > 0)
        m.close(out, im, f"image changed although no trap can act ({k})", 1e-12, max(im.max(), 1.0))


PROPS = {p.id: p for p in (C01, C02, C03, C22, C23, C24, C25, C26, C27, C30)}

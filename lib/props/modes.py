"""C16, C17, C19, C28: charge injection, trap pumping, correction, frames"""
import copy

import numpy as np

import refreadout as R
import spec as S
from harness import KnownFinding, Prop, Violation, valid_call
from props.physics import base_case
from props.readout import any_mode, conform, effect, model, same, top


def AC():
    import arcticpy
    return arcticpy


# ------------------------------------------------------------------------------------------- C16
class C16(Prop):
    id = "C16"
    quick, thorough = 960, 18000
    rule = ("charge injection readouts, 1-4 phases: N transfers against N single transfers, the model, moved and cut-out images, and a "
            "reused ROE object; non-trivial when the readout changed the image")
    required = {"composed": 150, "conform": 300, "shifted": 100, "cutout": 60, "reused": 200, "default_count": 100, "express": 100, "int": 80,
                "beyond_image": 60}
    fixed_cases = ({"known": "injection-truncated"},)

    def gen(self, rng, i):
        n = S.phases(rng)
        rows = S.size(rng, 1, 10, n)
        c = base_case(rng, rows=rows, cols=int(rng.integers(1, 3)), n_phases=n, n_groups=int(rng.choice([1, 1, 2])))
        N = None if rng.random() < 0.35 else int(rng.integers(1, 2 * rows + 2))
        c["roe"].update(type="ci", n_transfers=N, away=bool(n == 1 or rng.random() < 0.7), int=bool(rng.random() < 0.3), between=bool(rng.random() < 0.8))
        c["offset"] = S.count(rng, (0, 0, 3), 25) if N is None else 0
        tot = N or rows + c["offset"]
        c["express"] = 0 if i % 2 == 0 else int(rng.choice([1, 2, 3, tot, tot + 1]))
        c["shift"] = int(rng.integers(1, 5))
        a = int(rng.integers(0, rows))
        c["cut"] = [a, int(rng.integers(a + 1, rows + 1))]
        c["serial"] = bool(rng.random() < 0.2)
        return c

    def run(self, c, m):
        ac = AC()
        if "known" in c:
            im = np.zeros((8, 1))
            im[2] = 1000.0
            k = {"parallel_ccd": ac.CCD(full_well_depth=1e4, well_fill_power=0.8), "parallel_traps": [ac.Trap(20.0, 3.0)],
                 "parallel_roe": ac.ROEChargeInjection(n_pixel_transfers=80)}
            a, b = valid_call(ac.add_cti, im, **k), valid_call(ac.add_cti, im, time_window_range=range(80), **k)
            if np.abs(a - b).max() > 1e-6:
                raise KnownFinding(f"{c['known']}: {np.abs(a - b).max():.4g} electrons differ")
            return
        im, s = S.img(c["image"]), max(top(c), 1e-3)
        rows, n = im.shape[0], len(c["roe"]["dwell"])
        N = c["roe"]["n_transfers"] or rows + c["offset"]
        # the default time window ends after rows + offset transfers: ask for all of them (see the known finding)
        tw = [0, max(N, rows + c["offset"])]
        w = "parallel"
        go = lambda x, **o: valid_call(ac.add_cti, x, **S.kwargs(ac, dict(c, time_window=tw, **o)))
        out = go(im)
        conform(m, dict(c, time_window=tw), out, "charge injection")
        m.ev("conform")
        m.ev("express", c["express"] > 0)
        m.ev("int", c["roe"]["int"])
        m.ev("beyond_image", N > rows)
        if c["roe"]["n_transfers"] is None:
            m.ev("default_count")
            same(m, valid_call(ac.add_cti, im, **S.kwargs(ac, c)), out, "default number of transfers", s, 1e-12)
            k = go(im, roe=dict(c["roe"], n_transfers=rows + c["offset"]))
            same(m, k, out, "default number of transfers and the number of rows", s, 1e-12)
        elif N <= rows:
            same(m, valid_call(ac.add_cti, im, **S.kwargs(ac, c)), out, "charge injection without time window", s, 1e-12)
        if c["serial"]:
            x = valid_call(ac.add_cti, im.T.copy(), **S.kwargs(ac, c, "serial")).T
            same(m, x, out, "charge injection in serial clocking", s, 1e-12)
        if c["express"] == 0 and c["roe"]["between"]:
            x = im
            one = dict(c["roe"], n_transfers=1)
            for _ in range(N):
                x = valid_call(ac.add_cti, x, **S.kwargs(ac, dict(c, roe=one, offset=0)))
            same(m, x, out, f"{N} transfers at once and one at a time", s, 1e-10)
            m.ev("composed")
        # all rows make the same number of transfers: moving the image changes nothing
        fixed = dict(c["roe"], n_transfers=N)
        if (n == 1 or c["roe"]["away"]) and c["roe"]["between"]:
            y = go(np.vstack([np.zeros((c["shift"], im.shape[1])), im]), roe=fixed, offset=0)
            same(m, y[c["shift"]:], out, "the same charge in later rows", s, 1e-10)
            m.ev("shifted")
        if n == 1:
            a, b = c["cut"]
            y = go(im[a:b].copy(), roe=fixed, offset=0)
            z = go(im, roe=fixed, offset=0, window=[a, b])
            same(m, z[a:b], y, "row window and cut-out image", s, 1e-10)
            m.check((z[:a] == im[:a]).all() and (z[b:] == im[b:]).all(), "pixels outside the window changed")
            m.ev("cutout")
        # nothing is remembered from other images
        roe = S.roe(ac, c["roe"])
        k = S.kwargs(ac, c)
        k["parallel_roe"] = roe
        for x in (np.ones((rows + 3, 1)), im[:1].copy()):
            valid_call(ac.add_cti, x, **k)
        k["time_window_range"] = range(*tw)
        m.check((valid_call(ac.add_cti, im, **k) == out).all(), "the ROE remembers an earlier image")
        m.ev("reused")
        m.nt(effect(c, out) > 1e-6 * s)


# ------------------------------------------------------------------------------------------- C17
class C17(Prop):
    id = "C17"
    quick, thorough = 1440, 36000
    rule = ("trap pumping, 1-5 phases, 1-25 pumps: locality, charge balance, several pixels against one after the other, order of the "
            "window, columns, and the model; non-trivial when a pump changed the image")
    required = {"conform": 300, "several": 80, "dipole": 30, "balance": 100, "local": 300, "express": 150, "first_false": 80, "int": 80, "edge": 60, "serial": 60}

    def gen(self, rng, i):
        n = S.phases(rng, (1, 2, 3, 3, 4, 5))
        rows, cols = S.size(rng, 3, 9), int(rng.integers(1, 4))
        c = base_case(rng, rows=rows, cols=cols, n_phases=n, regime="abundant" if i % 3 else "any", n_groups=1 if i % 3 == 0 else int(rng.choice([1, 2])))
        pumps = 1 + S.count(rng, (0, 1, 4, int(rng.integers(0, 25))), 60)
        c["flat"] = bool(rng.random() < 0.4)
        if c["flat"]:
            v = S.r6(S.min_well(c["ccd"]) * rng.uniform(0.2, 0.9))
            c["image"] = [[v] * cols for _ in range(rows)]
            if n > 1:
                f = [0.0] * n
                f[int(rng.integers(n))] = 1.0
                c["ccd"]["fractions"] = f
        c["roe"] = {"type": "pump", "dwell": [0.5, 0.5] if n == 1 and rng.random() < 0.3 else [S.r6(x) for x in rng.uniform(0.1, 2, 2 * n)], "n_pumps": pumps, "first": bool(rng.random() < 0.7),
                    "int": bool(rng.random() < 0.3)}
        c["express"] = int(rng.choice([0, 0, 1, 2, 3, pumps, pumps + 2]))
        a = int(rng.integers(0, rows))
        c["window"] = a if rng.random() < 0.5 else [a, int(rng.integers(a + 1, min(rows, a + 3) + 1))]
        if rng.random() < 0.1:
            c["window"] = [a, min(rows, a + 7), int(rng.integers(2, 4))]
        c["serial"] = bool(rng.random() < 0.25)
        return c

    def run(self, c, m):
        ac = AC()
        im, s = S.img(c["image"]), max(top(c), 1e-3)
        out = valid_call(ac.add_cti, im, **S.kwargs(ac, c))
        win = [c["window"]] if isinstance(c["window"], int) else list(range(*c["window"]))
        touched = sorted({r + q for r in win for q in (-1, 0, 1)})
        rest = [r for r in range(im.shape[0]) if r not in touched]
        m.check((out[rest] == im[rest]).all(), f"pumping rows {win} changed rows {[r for r in rest if (out[r] != im[r]).any()]}")
        m.ev("local")
        m.ev("express", c["express"] > 0)
        m.ev("first_false", not c["roe"]["first"])
        m.ev("int", c["roe"]["int"])
        m.ev("edge", win[0] == 0 or win[-1] == im.shape[0] - 1)
        m.check((out >= 0).all(), "negative charge")
        # balance: with every pump computed, charge is only ever lent to the traps of the pumped pixels
        if c["express"] in (0,) or c["express"] >= c["roe"]["n_pumps"]:
            cap = sum(x[0] for g in c["groups"] for x in g["species"]) * len(win)
            inside = win[0] > 0 and win[-1] < im.shape[0] - 1
            if c["regime"] == "abundant" and im.min() > 2 * cap:
                d = (im - out).sum(axis=0)
                m.check((d <= cap * (1 + 1e-9) + 1e-9 * s).all() and (d >= -1e-9 * s).all() if inside else (d >= -1e-9 * s).all(),
                        f"{d.tolist()} electrons missing after pumping {len(win)} pixels with {cap / len(win):.6g} traps each")
                m.ev("balance")
        if c["flat"] and len(win) == 1 and 0 < win[0] < im.shape[0] - 1:
            r = win[0]
            if (np.abs(out[r] - im[r]) > 1e-6 * s).any() and (np.abs(out[[r - 1, r + 1]] - im[[r - 1, r + 1]]) > 1e-6 * s).any():
                m.ev("dipole")
        x = im
        for r in win:
            x = valid_call(ac.add_cti, x, **S.kwargs(ac, dict(c, window=r)))
        same(m, out, x, f"pumping rows {win} together and one after the other", s, 1e-10)
        m.ev("several", len(win) > 1)
        for j in range(im.shape[1]):
            same(m, valid_call(ac.add_cti, im[:, [j]].copy(), **S.kwargs(ac, c)), out[:, [j]], "a column pumped alone", s, 1e-12)
        if c["serial"]:
            # pumping along rows; an image beside the window of columns changes nothing either
            t = valid_call(ac.add_cti, im.T.copy(), **S.kwargs(ac, c, "serial"))
            same(m, t, out.T, "pumping along rows and pumping the transposed image along columns", s, 1e-12)
            m.ev("serial")
        if not c["roe"]["int"]:
            conform(m, c, out, "trap pumping")
            m.ev("conform")
        m.nt(np.abs(out - im).max() > 1e-6 * s)


# ------------------------------------------------------------------------------------------- C19
class C19(Prop):
    id = "C19"
    quick, thorough = 960, 24000
    rule = ("corrections of 0-6 iterations in any mode, both directions, windows: against the documented recursion through add_cti; "
            "weak-trap images degraded, corrected and degraded again; non-trivial when the correction changed the image")
    required = {"recursion": 250, "none": 15, "windowed": 30, "both": 80, "converged": 60, "restored": 60, "columns": 60, "timed": 40, "pumped": 20,
                "dtype": 40}

    def gen(self, rng, i):
        weak = i % 3 == 0
        n = 1 if weak else int(rng.choice([1, 1, 2, 3]))
        rows, cols = S.size(rng, 4, 12), int(rng.integers(1, 4))
        c = base_case(rng, rows=rows, cols=cols, n_phases=n, regime="abundant" if weak else None, dens=0.0005 if weak else None, mode="uniform" if weak else None,
                      tau=(0.3, 10) if weak else (0.1, 30))
        c["weak"] = weak
        c["iterations"] = int(rng.integers(0, 7)) if not weak else int(rng.integers(3, 7))
        if weak:
            c["roe"] = {"type": "std", "dwell": [1.0]}
            c["express"] = S.count(rng, (0, 1, 5), 15)
            fw = S.min_well(c["ccd"])
            # a background, as in every real image, and no saturated pixel
            c["image"] = [[S.r6(0.1 * fw + 0.7 * v) for v in r] for r in c["image"]]
        else:
            any_mode(rng, c, n, rows)
            if rng.random() < 0.3:
                a = int(rng.integers(0, rows))
                c["window"] = [a, int(rng.integers(a + 1, rows + 1))]
        c["both"] = bool(rng.random() < 0.4)
        if c["both"]:
            # the other direction has parameters of its own
            n2 = int(rng.choice([1, 1, 2]))
            d = base_case(rng, rows=2, n_phases=n2, regime=c["regime"], dens=0.0005 if weak else None, tau=(0.3, 10) if weak else (0.1, 30))
            if not weak:
                any_mode(rng, d, n2, cols)
            ccd = S.gen_ccd(rng, n2, linear=weak, full_well=S.min_well(c["ccd"]))
            if weak:
                d["groups"] = S.gen_groups(rng, S.min_well(ccd) * 0.0005, tau=(0.3, 10))
                d["roe"] = {"type": "std", "dwell": d["roe"]["dwell"]}
            c["serial"] = {"ccd": ccd, "groups": d["groups"], "roe": d["roe"], "express": int(rng.choice([0, 1, 4])), "offset": int(rng.choice([0, 3]))}
        a, b = int(rng.integers(0, cols)), int(rng.integers(0, rows))
        c["cw"] = [a, int(rng.integers(a + 1, cols + 1))] if rng.random() < 0.3 and not weak else None
        c["tw"] = [b, int(rng.integers(b + 1, rows + 1))] if rng.random() < 0.2 and not weak else None
        if not weak and rng.random() < 0.1:
            c["roe"] = {"type": "pump", "dwell": [S.r6(x) for x in rng.uniform(0.1, 2, 2 * n)], "n_pumps": int(rng.integers(1, 7))}
            c["window"], c["offset"], c["tw"] = [b, min(rows, b + int(rng.integers(1, 4)))], 0, None
        c["dtype"] = str(rng.choice(["int64", "int32", "uint16", "float32"])) if rng.random() < 0.2 else None
        return c

    def run(self, c, m):
        ac = AC()
        im, s = S.img(c["image"]), max(top(c), 1.0)
        k = S.kwargs(ac, c)
        if c["both"]:
            k.update(S.kwargs(ac, c["serial"], "serial"))
            m.ev("both")
        if c["cw"]:
            k["serial_window_range"] = range(*c["cw"])
            m.ev("columns")
        if c["tw"]:
            k["time_window_range"] = range(*c["tw"])
            m.ev("timed")
        keep = im.copy()
        it = c["iterations"]
        out = valid_call(ac.remove_cti, im, it, **k)
        m.check((im == keep).all(), "the caller's image was modified")
        m.check(out is not im and not np.shares_memory(out, im), "the result shares memory with the input")
        m.check(out.shape == im.shape and out.dtype == np.float64, "shape or type of the corrected image")
        x = im.copy()
        for _ in range(it):
            x = x + (im - valid_call(ac.add_cti, x, **k))
        same(m, out, x, f"{it} iterations of x + (image - add_cti(x))", s, 1e-9)
        m.ev("recursion")
        if it == 0:
            m.check((out == im).all(), "no iteration changed the image")
            m.ev("none")
        m.ev("windowed", c.get("window") is not None)
        m.ev("pumped", c["roe"]["type"] == "pump")
        if c["dtype"] and im.max() < 6e4:
            whole = np.rint(im)
            a, b = (valid_call(ac.remove_cti, y, it, **k) for y in (whole.astype(c["dtype"]), whole))
            same(m, a, b, f"an image of type {c['dtype']}", s, 1e-9)
            m.ev("dtype")
        m.nt(np.abs(out - im).max() > 1e-6 * s)
        if c["weak"]:
            bad = valid_call(ac.add_cti, im, **k)
            e0 = float(np.abs(bad - im).max())
            fixed = valid_call(ac.remove_cti, bad, it, **k)
            e1 = float(np.abs(fixed - im).max())
            m.check(e1 <= 0.2 * e0 + 1e-9 * s, f"the correction leaves {e1:.4g} of an error of {e0:.4g} electrons")
            m.ev("restored")
            r = float(np.abs(valid_call(ac.add_cti, fixed, **k) - bad).max())
            m.check(r <= 0.2 * e0 + 1e-9 * s, f"degrading the corrected image misses the observed one by {r:.4g} of {e0:.4g}")
            m.ev("converged")


# ------------------------------------------------------------------------------------------- C28
class C28(Prop):
    id = "C28"
    quick, thorough = 480, 9000
    rule = ("autoarray frames (all four readout corners, masks, sub-frames, ACS frames) through add_cti and remove_cti: same values as "
            "plain arrays, same type and metadata, input untouched")
    required = {"add": 100, "remove": 80, "scans": 100, "masked": 40, "serial": 50, "acs": 30, "corner": 60}

    def gen(self, rng, i):
        rows, cols = int(rng.integers(2, 9)), int(rng.integers(2, 7))
        c = base_case(rng, rows=rows, cols=cols, n_phases=1)
        c["express"] = int(rng.choice([0, 1, 2]))
        c["corner"] = [int(rng.integers(2)), int(rng.integers(2))]
        c["mask"] = [[bool(rng.random() < 0.15) for _ in range(cols)] for _ in range(rows)] if rng.random() < 0.4 else None
        c["dir"] = str(rng.choice(["parallel", "serial", "both"]))
        c["acs"] = bool(rng.random() < 0.3)
        c["iterations"] = int(rng.integers(0, 4))
        return c

    def run(self, c, m):
        ac = AC()
        from autoarray.instruments import acs
        from autoarray.structures import frames
        im, s = S.img(c["image"]), max(top(c), 1.0)
        cls = acs.FrameACS if c["acs"] else frames.Frame
        info = {"exposure": 1.5, "case": c["express"]}
        from autoarray.structures.frames import abstract_frame
        r, q = im.shape
        scans = abstract_frame.Scans(parallel_overscan=(r - 1, r, 0, q), serial_prescan=(0, r, 0, 1), serial_overscan=(0, r, q - 1, q))
        where = lambda f: [None if x is None else tuple(int(y) for y in x.region)
                           for x in (f.scans.parallel_overscan, f.scans.serial_prescan, f.scans.serial_overscan)]
        if c["mask"] is None:
            F = cls.manual(array=im.copy(), roe_corner=tuple(c["corner"]), pixel_scales=0.05, exposure_info=info, scans=scans)
            m.ev("corner", c["corner"] != [1, 0])
        else:
            F = cls(array=im.copy(), mask=np.array(c["mask"]), original_roe_corner=tuple(c["corner"]), exposure_info=info, scans=scans)
            m.ev("masked")
        regions = where(F)
        m.ev("scans", None not in regions)
        m.ev("acs", c["acs"])
        k = {}
        if c["dir"] != "serial":
            k.update(S.kwargs(ac, c))
        if c["dir"] != "parallel":
            k.update(S.kwargs(ac, c, "serial"))
            m.ev("serial")
        plain = np.array(F, dtype=float)
        mask = np.array(F.mask, bool)

        def judge(out, exp, what):
            m.check(type(out) is type(F), f"{what}: a {type(F).__name__} became a {type(out).__name__}")
            e = np.where(mask, 0.0, exp)
            same(m, np.array(out, dtype=float), e, f"{what}: frame and plain array", s, 1e-12)
            m.check((np.array(out.mask, bool) == mask).all(), f"{what}: mask changed")
            m.check(out.original_roe_corner == F.original_roe_corner, f"{what}: readout corner changed")
            m.check(out.exposure_info == info, f"{what}: exposure information lost")
            m.check(where(out) == regions == where(F), f"{what}: scans changed")
            m.check((np.array(F, dtype=float) == plain).all(), f"{what}: the input frame was modified")
            m.check(not np.shares_memory(out, F), f"{what}: the result shares memory with the input")

        judge(valid_call(ac.add_cti, F, **k), valid_call(ac.add_cti, plain, **k), "add_cti")
        m.ev("add")
        x = plain.copy()
        for _ in range(c["iterations"]):
            x = x + plain - np.where(mask, 0.0, valid_call(ac.add_cti, x, **k))
        judge(valid_call(ac.remove_cti, F, c["iterations"], **k), x, "remove_cti")
        m.ev("remove")
        m.nt(np.abs(x - plain).max() > 1e-9 * s)


PROPS = {p.id: p for p in (C16, C17, C19, C28)}

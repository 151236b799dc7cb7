"""C08-C15, C18: whole readouts - geometry, windows, offsets, express"""
import math

import numpy as np

import refreadout as R
import spec as S
from harness import Prop, Violation, valid_call
from props.physics import base_case, run_parallel


def AC():
    import arcticpy
    return arcticpy


def cols_of(a):
    return [list(x) for x in zip(*a)]


def model(c, image=None, stats=None):
    """what the reference says add_cti() returns for this case (parallel direction)"""
    im = c["image"] if image is None else image
    rows, roe = len(im), c.get("roe", {})
    out = R.readout(cols_of(im), c["ccd"], c["groups"], roe, c.get("express", 0), c.get("offset", 0), c.get("window"),
                    c.get("time_window"), stats, default_time_window=[0, rows + c.get("offset", 0)])
    return np.array(out).T


def conform(m, c, got, what, image=None, tol=1e-7, stats=None):
    """compare with the reference; where the model itself amplifies a change in the eleventh digit, allow for it"""
    im = np.array(c["image"] if image is None else image, float)
    exp = model(c, im.tolist(), stats)
    scale = max(float(np.abs(im).max()), 1e-3)
    m.ev("compared_pixels", exp.size)
    try:
        m.close(got, exp, what, tol, scale)
    except Violation:
        g = np.random.default_rng(7)
        slack = 0.0
        for _ in range(3):
            alt = model(c, (im * (1 + 1e-11 * g.choice([-1, 1], im.shape))).tolist())
            slack = max(slack, float(np.abs(alt - exp).max()))
        slack *= 100
        if slack > 1e-3 * scale:
            m.ev("ill_conditioned")
            return exp
        m.close(got, exp, what, tol + slack / scale, scale)
    return exp


def same(m, a, b, what, scale, tol=1e-9):
    m.close(a, b, what, tol, max(scale, 1e-3))


def top(c):
    return float(np.max(c["image"])) if np.size(c["image"]) else 1.0


def effect(c, out):
    return float(np.abs(np.asarray(out) - np.array(c["image"])).max())


# ------------------------------------------------------------------------------------------- C08
class C08(Prop):
    id = "C08"
    quick, thorough = 2400, 60000
    rule = ("random CCDs (1-4 phases, empty phases, per-phase wells), 1-2 trap groups, 1-3 columns, offset, every pair of the ROE "
            "switches, both directions, every transfer computed; output compared pixel by pixel with the independent readout "
            "model; non-trivial when the readout changed the image")
    required = {"phases1": 100, "phases3": 50, "phases4": 40, "phases2": 40, "first_false": 80, "between_false": 80, "away_false": 60,
                "serial": 60, "scarce": 20, "above": 500, "recapture": 200, "two_groups": 80, "long": 5, "broad": 5, "changed": 400, "fewer_steps": 5,
                "custom_well": 20, "tall": 20, "wide": 15, "many_species": 40, "phases5": 15, "phases6": 15}
    assumptions = ["the reference (lib/refreadout.py, lib/refmodel.py) is an independent reading of the documented model"]

    def gen(self, rng, i):
        n = S.phases(rng, (1, 1, 1, 2, 3, 4))
        rows, cols, ns = int(rng.integers(1, 11)), int(rng.integers(1, 4)), 3
        big = i % 20
        if big == 0:
            rows, cols, n = int(rng.integers(16, 41)), 1, 1
        elif big == 1:
            rows, cols, n = int(rng.integers(2, 5)), int(rng.integers(5, 14)), int(rng.choice([1, 2]))
        elif big in (2, 3):
            rows, n = int(rng.integers(1, 6)), 3 + big
        elif big in (4, 5):
            ns = 7
        elif i % 100 == 7:
            rows, cols, n = int(rng.integers(60, 111)), 1, 1
        elif i % 100 == 8:
            rows, cols, n = int(rng.integers(2, 4)), int(rng.integers(30, 91)), 1
        c = base_case(rng, rows=rows, cols=cols, n_phases=n, n_groups=1 if max(rows, cols) >= 30 else int(rng.choice([1, 1, 2, 3] if big > 5 else [1, 1, 2])), n_species=ns)
        if big == 6:
            c["ccd"] = dict({k: v for k, v in c["ccd"].items() if k == "fractions"}, full_well=1e4, custom=S.r6(S.min_well(c["ccd"]) * rng.uniform(0.1, 2)))
        c["roe"].update(first=bool(rng.random() < 0.75), between=bool(rng.random() < 0.7), away=bool(n == 1 or rng.random() < 0.7),
                        int=bool(rng.random() < 0.3))
        if n > 1 and rng.random() < 0.15:
            c["roe"]["dwell"][int(rng.integers(n))] = 0.0
        c["offset"] = S.count(rng, (0, 0, 1, 3), 25)
        c["dir"] = "serial" if rng.random() < 0.2 else "parallel"
        return c

    def run(self, c, m):
        ac = AC()
        im = S.img(c["image"])
        if c["dir"] == "parallel":
            got = valid_call(ac.add_cti, im, **S.kwargs(ac, c))
        else:
            got = valid_call(ac.add_cti, im.T.copy(), **S.kwargs(ac, c, "serial")).T
        st = {}
        conform(m, c, got, "readout", stats=st)
        n = len(c["ccd"].get("fractions", [1.0]))
        m.ev(f"phases{n}")
        for k in ("first", "between", "away"):
            m.ev(k + "_false", not c["roe"][k])
        m.ev("serial", c["dir"] == "serial")
        m.ev("two_groups", len(c["groups"]) > 1)
        m.ev("custom_well", "custom" in c["ccd"])
        m.ev("tall", im.shape[0] > 15)
        m.ev("wide", im.shape[1] > 4)
        m.ev("long", im.shape[0] >= 60)
        m.ev("broad", im.shape[1] >= 30)
        m.ev("many_species", any(len(g["species"]) > 3 for g in c["groups"]))
        m.ev("fewer_steps", 0.0 in c["roe"]["dwell"])
        for k in ("scarce", "above", "recapture", "below", "overshoot", "merge"):
            m.ev(k, st.get(k, 0))
        if effect(c, got) > 1e-6 * top(c):
            m.ev("changed")
            m.nt()


# ------------------------------------------------------------------------------------------- C09
def any_mode(rng, c, n, rows, pump=True):
    """a random ROE of any type for a CCD of n phases, with express"""
    t = str(rng.choice(["std", "std", "ci"]))
    c["roe"] = {"type": t, "dwell": c["roe"]["dwell"], "away": bool(n == 1 or rng.random() < 0.7), "int": bool(rng.random() < 0.3),
                "first": bool(rng.random() < 0.7)}
    if t == "ci":
        c["roe"].pop("first")
        c["roe"]["n_transfers"] = None if rng.random() < 0.5 else int(rng.integers(1, rows + 1))
    c["express"] = S.count(rng, (0, 1, 2, 5), 15)
    c["offset"] = S.count(rng, (0, 0, 2), 25)
    return c


class C09(Prop):
    id = "C09"
    quick, thorough = 1440, 36000
    rule = ("images of 2-6 columns in any mode, express and window: permuted, duplicated and read one column at a time; a column "
            "window and the order of readout; non-trivial when the columns differ and traps acted")
    required = {"permuted": 200, "alone": 300, "column_window": 100, "carried": 40, "changed": 200, "interleaved": 60}

    def gen(self, rng, i):
        n = S.phases(rng, (1, 1, 2, 3))
        rows, cols = S.size(rng, 2, 9, n), S.size(rng, 2, 7, n)
        c = base_case(rng, rows=rows, cols=cols, n_phases=n, n_groups=int(rng.choice([1, 1, 2])))
        any_mode(rng, c, n, rows)
        c["perm"] = [int(x) for x in rng.permutation(cols)]
        a = int(rng.integers(0, cols))
        c["cw"] = [a, int(rng.integers(a + 1, cols + 1))]
        c["carry"] = bool(rng.random() < 0.3)
        return c

    def run(self, c, m):
        ac = AC()
        im = S.img(c["image"])
        k = lambda **o: S.kwargs(ac, dict(c, **o))
        s = top(c)
        full = valid_call(ac.add_cti, im, **k())
        p = c["perm"]
        same(m, valid_call(ac.add_cti, im[:, p].copy(), **k()), full[:, p], "permuted columns", s, 1e-12)
        m.ev("permuted")
        for j in range(im.shape[1]):
            same(m, valid_call(ac.add_cti, im[:, [j]].copy(), **k()), full[:, [j]], f"column {j} read out alone", s, 1e-12)
            m.ev("alone")
        a, b = c["cw"]
        w = valid_call(ac.add_cti, im, serial_window_range=range(a, b), **k())
        same(m, w[:, a:b], full[:, a:b], "columns inside a column window", s, 1e-12)
        m.check((np.delete(w, range(a, b), 1) == np.delete(im, range(a, b), 1)).all(), "columns outside the column window changed")
        m.ev("column_window")
        # an extra column between others changes nothing
        dup = np.insert(im, a, im[:, b - 1] * 0.5 + 3, axis=1)
        out = valid_call(ac.add_cti, dup, **k())
        same(m, np.delete(out, a, 1), full, "another column in between", s, 1e-12)
        m.ev("interleaved")
        if c["carry"]:
            # traps not emptied: column j must depend on the columns before it only
            cc = dict(c, roe=dict(c["roe"], between=False))
            f2 = valid_call(ac.add_cti, im, **S.kwargs(ac, cc))
            for j in range(1, im.shape[1] + 1):
                same(m, valid_call(ac.add_cti, im[:, :j].copy(), **S.kwargs(ac, cc)), f2[:, :j], f"first {j} columns", s, 1e-12)
            same(m, f2[:, :1], full[:, :1], "first column with traps not emptied between columns", s, 1e-12)
            m.ev("carried")
        if effect(c, full) > 1e-6 * s:
            m.ev("changed")
            m.nt()


# ------------------------------------------------------------------------------------------- C10
class C10(Prop):
    id = "C10"
    quick, thorough = 1800, 42000
    rule = ("serial clocking against parallel clocking of the transposed image; both directions in one call against two calls, "
            "with offsets, express, row/column windows and time windows; non-square images")
    required = {"transposed": 250, "both": 250, "windowed": 80, "timed": 60, "changed": 200, "defaults": 20, "pumped": 20}

    def gen(self, rng, i):
        n = S.phases(rng, (1, 1, 3))
        rows, cols = S.size(rng, 2, 9, n), S.size(rng, 2, 9, n)
        c = base_case(rng, rows=rows, cols=cols, n_phases=n, n_groups=int(rng.choice([1, 1, 2])))
        any_mode(rng, c, n, rows)
        n2 = int(rng.choice([1, 1, 2]))
        d = base_case(rng, rows=2, n_phases=n2)
        any_mode(rng, d, n2, cols)
        d["ccd"], d["groups"] = S.gen_ccd(rng, n2, full_well=S.min_well(c["ccd"])), d["groups"]
        c["serial"] = {x: d[x] for x in ("ccd", "groups", "roe", "express", "offset")}
        c["pw"] = c["sw"] = c["tw"] = None
        if rng.random() < 0.4:
            a = int(rng.integers(0, rows)); c["pw"] = [a, int(rng.integers(a + 1, rows + 1))]
        if rng.random() < 0.4:
            a = int(rng.integers(0, cols)); c["sw"] = [a, int(rng.integers(a + 1, cols + 1))]
        if rng.random() < 0.3:
            a = int(rng.integers(0, rows)); c["tw"] = [a, int(rng.integers(a + 1, rows + c["offset"] + 1))]
        c["defaults"] = bool(rng.random() < 0.1)
        if rng.random() < 0.08:       # pump some rows, then read out along the rows
            c["defaults"], c["offset"], c["tw"] = False, 0, None
            c["roe"] = {"type": "pump", "dwell": [S.r6(x) for x in rng.uniform(0.1, 2, 2 * n)], "n_pumps": int(rng.integers(1, 7))}
            a = int(rng.integers(0, rows)); c["pw"] = [a, int(rng.integers(a + 1, min(rows, a + 2) + 1))]
        return c

    def run(self, c, m):
        ac = AC()
        im = S.img(c["image"])
        s = max(top(c), 1.0)
        if c["defaults"]:
            kp, ks = S.kwargs(ac, c), S.kwargs(ac, dict(c["serial"]), "serial")
            for d, w in ((kp, "parallel"), (ks, "serial")):
                d.pop(w + "_roe")
                d[w + "_ccd"] = S.ccd(ac, dict(c["ccd"], **{"fractions": [1.0], "full_well": S.min_well(c["ccd"]), "notch": 0.0, "power": 0.58}))
            m.ev("defaults")
        else:
            kp, ks = S.kwargs(ac, c), S.kwargs(ac, dict(c["serial"]), "serial")
        win = {}
        if c["pw"]:
            win["parallel_window_range"] = range(*c["pw"])
        if c["sw"]:
            win["serial_window_range"] = range(*c["sw"])
        rename = lambda d, a, b: {(b + x[len(a):] if x.startswith(a) else x): v for x, v in d.items()}
        swap = {{"parallel_window_range": "serial_window_range", "serial_window_range": "parallel_window_range"}[x]: v for x, v in win.items()}
        a = valid_call(ac.add_cti, im, **rename(kp, "parallel", "serial"), **win)
        # serial clocking of the image = parallel clocking of its transpose.  The default time window only exists for
        # parallel clocking: ask for the whole readout explicitly
        whole = {"time_window_range": range(10 * (sum(im.shape) + c["offset"] + 200))}
        b = valid_call(ac.add_cti, im.T.copy(), **kp, **swap, **whole)
        same(m, a, b.T, "serial clocking and parallel clocking of the transpose", s, 1e-12)
        m.ev("transposed")
        if effect(c, a) > 1e-6 * s:
            m.ev("changed")
            m.nt()
        tw = {"time_window_range": range(*c["tw"])} if c["tw"] else {}
        both = valid_call(ac.add_cti, im, **kp, **ks, **win, **tw)
        one = valid_call(ac.add_cti, im, **kp, **win, **tw)
        rows = range(*c["pw"]) if c["pw"] else range(im.shape[0])
        if c["tw"]:
            rows = [r for r in rows if c["tw"][0] <= r + c["offset"] < c["tw"][1]]
        two = one
        if len(rows):
            w2 = dict(win, parallel_window_range=range(rows[0], rows[-1] + 1))
            two = valid_call(ac.add_cti, one, **ks, **w2)
        same(m, both, two, "both directions at once and one after the other", s, 1e-12)
        m.ev("both")
        m.ev("pumped", c["roe"]["type"] == "pump")
        m.ev("windowed", bool(c["pw"] or c["sw"]))
        m.ev("timed", bool(c["tw"]))


# ------------------------------------------------------------------------------------------- C11
class C11(Prop):
    id = "C11"
    quick, thorough = 1680, 42000
    rule = ("an image read out with offset k against the same image with k empty rows in front; both directions, any express below the "
            "number of rows; non-trivial when the offset changed the output")
    required = {"matters": 150, "express": 150, "serial": 80, "multi_phase": 80, "injection": 40}

    def gen(self, rng, i):
        n = S.phases(rng)
        rows = S.size(rng, 2, 9, n)
        c = base_case(rng, rows=rows, cols=int(rng.integers(1, 3)), n_phases=n)
        c["offset"] = 1 + S.count(rng, range(11), 40)
        c["express"] = int(rng.choice([0, 0, 1, 2, rows - 1]))
        if c["express"] >= rows:
            c["express"] = 0
        c["roe"]["int"] = bool(rng.random() < 0.4)
        if rng.random() < 0.15:
            c["roe"]["type"] = "ci"
            c["express"] = 0
        c["dir"] = "serial" if rng.random() < 0.25 else "parallel"
        return c

    def run(self, c, m):
        ac = AC()
        im = S.img(c["image"])
        k, w = c["offset"], c["dir"]
        T = (lambda x: x.T.copy()) if w == "serial" else (lambda x: x)
        long = np.vstack([np.zeros((k, im.shape[1])), im])
        a = T(valid_call(ac.add_cti, T(im), **S.kwargs(ac, c, w)))
        b = T(valid_call(ac.add_cti, T(long), **S.kwargs(ac, dict(c, offset=0), w)))
        same(m, a, b[k:], f"offset {k} and {k} empty rows in front", top(c), 1e-10)
        m.check(b[:k].max() <= 1e-12 * max(top(c), 1), "charge appeared in the empty rows in front")
        z = T(valid_call(ac.add_cti, T(im), **S.kwargs(ac, dict(c, offset=0), w)))
        if np.abs(z - a).max() > 1e-9 * max(top(c), 1e-3):
            m.ev("matters")
            m.nt()
        m.ev("express", c["express"] > 0)
        m.ev("serial", w == "serial")
        m.ev("injection", c["roe"]["type"] == "ci")
        m.ev("multi_phase", len(c["roe"]["dwell"]) > 1)


# ------------------------------------------------------------------------------------------- C12
class C12(Prop):
    id = "C12"
    quick, thorough = 2700, 66000
    rule = ("row windows [a,b) (also a single index, both directions, combined with column windows) against the whole readout, the "
            "sub-image with offset a, and the untouched input outside; non-trivial when the window changed the image")
    required = {"stepped": 60, "subimage": 200, "prefix": 50, "quiet_before": 20, "single": 60, "single_column": 100, "outside": 400, "multi_phase": 100, "express": 100}

    def gen(self, rng, i):
        n = S.phases(rng, (1, 1, 1, 2, 3, 4))
        rows = S.size(rng, 2, 12, n)
        c = base_case(rng, rows=rows, cols=int(rng.integers(1, 4)), n_phases=n)
        c["roe"]["away"] = bool(n == 1 or rng.random() < 0.7)
        c["roe"]["int"] = bool(rng.random() < 0.3)
        a = 0 if i % 5 == 0 else int(rng.integers(0, rows))
        b = int(rng.integers(a + 1, rows + 1))
        c["window"] = [a, b]
        c["single"] = bool(b == a + 1)
        c["express"] = S.count(rng, (0, 0, 1, 2), 15)
        c["offset"] = S.count(rng, (0, 0, 2), 25)
        c["quiet"] = bool(rng.random() < 0.4)
        if c["quiet"]:
            for r in range(a):
                c["image"][r] = [0.0] * len(c["image"][0])
        x = int(rng.integers(0, len(c["image"][0])))
        c["cw"] = [x, int(rng.integers(x + 1, len(c["image"][0]) + 1))]
        if i % 9 == 4:
            c["window"] = [int(rng.integers(0, rows)), rows, int(rng.integers(2, 5))]
            if rng.random() < 0.5:
                c["cw"] = [x % 2, len(c["image"][0]) + 1 - x % 2, 2]
                c["cw"][1] = max(c["cw"][1] - 1, c["cw"][0] + 1) if len(c["image"][0]) > 1 else 1
                c["cw"][0] = min(c["cw"][0], len(c["image"][0]) - 1)
        return c

    def stepped(self, c, m):
        """every so many rows or columns: the model, and nothing else touched"""
        ac = AC()
        im, s = S.img(c["image"]), max(top(c), 1e-3)
        n, cols = len(c["roe"]["dwell"]), [j for j in range(*c["cw"]) if j < im.shape[1]]
        cw = range(cols[0], cols[-1] + 1, c["cw"][2] if len(c["cw"]) > 2 else 1)
        got = valid_call(ac.add_cti, im, serial_window_range=cw, **S.kwargs(ac, c))
        rest = [j for j in range(im.shape[1]) if j not in cw]
        m.check((got[:, rest] == im[:, rest]).all(), "columns between those of the window changed")
        if n == 1:
            out = [r for r in range(im.shape[0]) if r not in range(*c["window"])]
            m.check((got[out] == im[out]).all(), "rows between those of the window changed")
        sub = dict(c, image=im[:, list(cw)].tolist())
        conform(m, sub, got[:, list(cw)], "window with a step")
        ser = valid_call(ac.add_cti, im.T.copy(), parallel_window_range=cw, **S.kwargs(ac, c, "serial")).T
        same(m, ser, got, "window with a step in serial clocking", s, 1e-12)
        m.ev("stepped")
        m.nt(np.abs(got - im).max() > 1e-6 * s)

    def run(self, c, m):
        if len(c["window"]) > 2:
            return self.stepped(c, m)
        ac = AC()
        im, s = S.img(c["image"]), max(top(c), 1e-3)
        a, b = c["window"]
        n = len(c["roe"]["dwell"])
        cw = range(*c["cw"])
        w = valid_call(ac.add_cti, im, serial_window_range=cw, **S.kwargs(ac, c))
        # outside: untouched.  A cloud next to the window may exchange charge with traps at its edge when there are phases
        lo, hi = (0, 0) if n == 1 else (0 if c["roe"]["away"] else 1, 2)
        mask = np.ones(im.shape, bool)
        mask[max(a - lo, 0):b + hi, cw.start:cw.stop] = False
        m.check((w[mask] == im[mask]).all(), "pixels outside the window changed")
        m.ev("outside")
        m.ev("multi_phase", n > 1)
        m.ev("express", c["express"] > 0)
        # serial direction: same thing transposed
        ws = valid_call(ac.add_cti, im.T.copy(), parallel_window_range=cw, **S.kwargs(ac, c, "serial")).T
        same(m, ws, w, "row window in serial clocking", s, 1e-12)
        if c["single"]:
            k = S.kwargs(ac, c)
            k["parallel_window_range"] = a
            one = valid_call(ac.add_cti, im, serial_window_range=cw, **k)
            m.check((one == w).all(), "a single index differs from the range of one row")
            m.ev("single")
        if len(cw) == 1:
            one = valid_call(ac.add_cti, im, serial_window_range=cw.start, **S.kwargs(ac, c))
            m.check((one == w).all(), "a single column index differs from the range of one column")
            m.ev("single_column")
        if c["express"] == 0 or c["express"] < b - a:
            if a + c["offset"] > 0 and (n == 1 or c["roe"]["away"]):
                sub = valid_call(ac.add_cti, im[a:].copy(), serial_window_range=cw,
                                 **S.kwargs(ac, dict(c, window=[0, b - a], offset=c["offset"] + a)))
                same(m, sub, w[a:], "window and sub-image with an offset", s, 1e-10)
                m.ev("subimage")
            if n == 1:
                sub = valid_call(ac.add_cti, im[a:b].copy(), serial_window_range=cw,
                                 **S.kwargs(ac, dict(c, window=None, offset=c["offset"] + a)))
                same(m, sub, w[a:b], "window and cut-out image with an offset", s, 1e-10)
        if c["express"] == 0 and n == 1:
            full = valid_call(ac.add_cti, im, serial_window_range=cw, **S.kwargs(ac, dict(c, window=None)))
            if a == 0:
                same(m, w[:b], full[:b], "window from the first row and the whole readout", s, 1e-10)
                m.ev("prefix")
            elif c["quiet"]:
                same(m, w[a:b], full[a:b], "window after empty rows and the whole readout", s, 1e-10)
                m.ev("quiet_before")
        if np.abs(w - im).max() > 1e-6 * s:
            m.nt()


# ------------------------------------------------------------------------------------------- C13
class C13(Prop):
    id = "C13"
    quick, thorough = 1120, 21000
    rule = ("one readout split into 2-4 successive time windows, with a cosmic ray added in between, against the whole; single windows "
            "against the model; windows outside the readout")
    required = {"split": 200, "conform": 200, "nothing": 60, "cosmic": 60, "express": 60, "rows_untouched": 100, "serial_rows": 40}

    def gen(self, rng, i):
        n = S.phases(rng)
        rows = S.size(rng, 2, 10, n)
        c = base_case(rng, rows=rows, cols=int(rng.integers(1, 3)), n_phases=n)
        c["offset"] = S.count(rng, (0, 0, 1, 4), 25)
        N = rows + c["offset"]
        k = int(rng.integers(1, min(4, N)))
        c["cuts"] = [0] + sorted(int(x) for x in rng.choice(np.arange(1, N), size=min(k, N - 1), replace=False)) + [N]
        c["express"] = 0 if i % 2 == 0 else S.count(rng, (0, 1, 2, 4), 15)
        c["roe"].update(first=True if i % 2 == 0 else bool(rng.random() < 0.5), away=bool(n == 1 or rng.random() < 0.8), int=bool(rng.random() < 0.3))
        j = int(rng.integers(len(c["cuts"]) - 1))
        c["tw"] = c["cuts"][j:j + 2]
        c["ray"] = [int(rng.integers(rows)), float(S.logu(rng, 1e-3 * S.min_well(c["ccd"]), S.min_well(c["ccd"])))]
        return c

    def run(self, c, m):
        ac = AC()
        im, s = S.img(c["image"]), max(top(c), 1e-3)
        go = lambda x, **o: valid_call(ac.add_cti, x, **S.kwargs(ac, dict(c, **o)))
        full = go(im)
        if c["express"] == 0 and c["roe"]["first"]:
            x = im
            for a, b in zip(c["cuts"], c["cuts"][1:]):
                y = go(x, time_window=[a, b])
                # a row read out before the window starts no longer changes
                gone = max(0, a - c["offset"] - (1 if len(c["roe"]["dwell"]) > 1 else 0))
                m.check((y[:gone] == x[:gone]).all(), f"rows read out before transfer {a} changed")
                m.ev("rows_untouched", gone > 0)
                x = y
            same(m, x, full, f"readout in parts {c['cuts']}", s, 1e-10)
            m.ev("split")
            # charge that arrives between two parts only sees the remaining transfers
            k = c["cuts"][1]
            y = go(im, time_window=[0, k])
            y[c["ray"][0], 0] += c["ray"][1]
            z = go(y, time_window=[k, c["cuts"][-1]])
            before = max(0, k - c["offset"])
            if len(c["roe"]["dwell"]) == 1 and c["ray"][0] < before:
                same(m, z[c["ray"][0], 0], y[c["ray"][0], 0], "charge placed in a row already read out", s, 1e-12)
            whole = go(y, time_window=[k, k + 1])
            for t in range(k + 1, c["cuts"][-1]):
                whole = go(whole, time_window=[t, t + 1])
            same(m, z, whole, "remaining transfers together and one at a time", max(s, c["ray"][1]), 1e-10)
            m.ev("cosmic")
        one = go(im, time_window=c["tw"])
        conform(m, dict(c, time_window=c["tw"]), one, f"time window {c['tw']}")
        m.ev("conform")
        m.ev("express", c["express"] > 0)
        N = c["cuts"][-1]
        same(m, go(im, time_window=[0, N]), full, "time window of the whole readout", s, 1e-12)
        same(m, go(im, time_window=[N, N + 5]), im, "a time window after the end of the readout", s, 1e-12)
        m.ev("nothing")
        # serial clocking only treats the rows that arrive during the window
        if len(c["roe"]["dwell"]) == 1 and not c["offset"]:
            z = valid_call(ac.add_cti, im, time_window_range=range(*c["tw"]), **S.kwargs(ac, dict(c, offset=0), "serial"))
            out = [r for r in range(im.shape[0]) if not c["tw"][0] <= r < c["tw"][1]]
            m.check((z[out] == im[out]).all(), "serial clocking of rows outside the time window")
            m.ev("serial_rows")
        if np.abs(full - im).max() > 1e-6 * s:
            m.nt()


# ------------------------------------------------------------------------------------------- C14
class C14(Prop):
    id = "C14"
    quick, thorough = 7200, 180000
    rule = ("the express and monitor matrices of every ROE type for random sizes (up to 60 pixels, some up to 400), express, offset, windows, time "
            "windows and dtype: every transfer of every pixel counted exactly once")
    required = {"std": 800, "ci": 300, "pump": 300, "timed": 300, "windowed": 300, "int": 500, "first_once": 200, "saves": 200, "clamped": 100}

    def gen(self, rng, i):
        n = int(rng.integers(1, 61)) if rng.random() < 0.5 else int(rng.integers(1, 9))
        off = int(rng.choice([0, 0, 0, 1, 5, 30]))
        t = ("std", "std", "ci", "pump")[i % 4]
        far = rng.random() < 0.03       # as large as real detectors
        if far:
            n, off = int(rng.integers(60, 400)), int(rng.choice([0, 24, 300]))
        a = int(rng.integers(0, n))
        b = int(rng.integers(a + 1, n + 1))
        e = int(rng.choice([0, 1, 2, 3, n - 1, n, n + off, n + off + 3, int(rng.integers(1, n + 2))]))
        N = n + off
        x = int(rng.integers(0, N))
        return {"type": t, "n": n, "offset": off, "express": max(e, 0), "int": bool(rng.random() < 0.5), "first": bool(rng.random() < 0.6),
                "window": [a, b] if rng.random() < 0.4 else None, "tw": [x, int(rng.integers(x + 1, N + 2))] if rng.random() < 0.35 else None,
                "n_transfers": None if rng.random() < 0.4 else int(rng.integers(1, 1200 if far else 90)), "n_pumps": int(rng.integers(1, 1500 if far else 60)), "as_int": bool(rng.random() < 0.5)}

    def run(self, c, m):
        ac = AC()
        roe = S.roe(ac, dict(c, dwell=[1.0] if c["type"] != "pump" else [1.0, 1.0]))
        m.ev(c["type"])
        m.ev("int", c["int"])
        win = range(*c["window"]) if c["window"] else range(c["n"])
        n, off = max(win) + 1, c["offset"]
        pixels = n if (c["as_int"] and not c["window"]) else win
        call = lambda **k: [np.array(x) for x in valid_call(roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express,
                                                            pixels=pixels, **({} if c["express"] == 0 and c["n"] % 2 else {"express": c["express"]}), **k)]
        e = c["express"]
        if c["type"] == "pump":
            # each pixel of the window is pumped on its own; an integer means that one pixel
            if isinstance(pixels, int):
                win = [pixels]
            E, M = call()
            m.check(E.shape == M.shape and E.shape[1] == len(win), f"shapes {E.shape} and {M.shape}")
            m.close(E.sum(axis=0), np.full(len(win), c["n_pumps"]), "pumps represented per pixel", 1e-12)
            m.check((E >= 0).all(), "negative multiplier")
            m.check(((E > 0) == M.astype(bool)).all(), "monitored transfers are not those with an effect")
            want = c["n_pumps"] if e == 0 else min(e, c["n_pumps"])
            special = c["first"] and want < c["n_pumps"]
            m.check(M.sum(axis=0).max() <= want + special, "more passes than asked for")
            m.check((np.count_nonzero(M, axis=1) <= 1).all(), "two pixels pumped in the same pass")
            order = [int(np.nonzero(r)[0][0]) for r in M if r.any()]
            m.check(order == sorted(order), "pixels are not pumped one after the other")
            if special or want == c["n_pumps"]:
                for j in range(len(win)):
                    m.check(E[:, j][E[:, j] > 0][0] == 1, "the first pump stands for others although it sees empty traps")
                m.ev("first_once")
            if c["int"]:
                m.check((E == np.rint(E)).all(), "multipliers are not integers")
            sv = np.array(valid_call(roe.save_trap_states_matrix_from_express_matrix, express_matrix=M.astype(float)))
            m.check(sv.shape == M.shape, "shape of the save matrix")
            for j in range(len(win)):
                on = np.nonzero(M[:, j])[0]
                m.check(sv[on[:-1], j].all() and not sv[on[-1], j], "trap states are not kept between the pumps of one pixel")
            m.ev("saves")
            m.nt()
            return
        N = n + off
        if c["type"] == "ci":
            tot = N if c["n_transfers"] is None else c["n_transfers"]
            counts = np.full(n, float(tot))
        else:
            tot = N
            counts = np.arange(1, n + 1) + float(off)
        E, M = call(offset=off)
        m.check(E.shape == M.shape and E.shape[1] == len(win), f"shapes {E.shape} and {M.shape}")
        m.check((E >= 0).all(), "negative multiplier")
        m.close(E.sum(axis=0), counts[list(win)], "transfers represented per pixel", 1e-11)
        m.check(((E > 0) == M.astype(bool)).all(), "monitored transfers are not those with an effect")
        k = tot if e == 0 else min(e, tot)
        m.ev("clamped", e > tot)
        mult = math.ceil(tot / k) if c["int"] else tot / k
        m.check(E.max() <= mult * (1 + 1e-12) + (1 if c["type"] == "std" and c["first"] and e and e < n else 0), f"multiplier {E.max()} exceeds {mult}")
        if k == tot:
            m.check(((E == 0) | (E == 1)).all(), "a transfer stands for others although every transfer is computed")
        if c["int"]:
            m.check((E == np.rint(E)).all(), "multipliers are not integers")
        # passes: a pixel that still has transfers to make is in every later pass (readout order)
        if c["type"] == "std" and c["first"] and off == 0 and not c["window"] and k < n:
            for row in E:
                nz = np.nonzero(row)[0]
                if len(nz):
                    m.check(row[nz[0]] == 1, f"a transfer through empty traps is multiplied by {row[nz[0]]}")
            m.ev("first_once")
        if c["type"] == "std" and not (c["first"] and k < n):
            m.check((np.diff(M.astype(int), axis=1) >= 0).all(), "a pixel is skipped by a pass that started before it")
        if c["window"]:
            F = [np.array(x) for x in valid_call(roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express, pixels=n, express=e, offset=off)]
            m.close(E, F[0][:, list(win)], "window of the express matrix", 1e-12)
            m.ev("windowed")
        if c["tw"]:
            a, b = c["tw"]
            Et, Mt = call(offset=off, time_window_range=range(a, b))
            m.check((Et >= -1e-12).all() and (Et <= E + 1e-9).all(), "time-windowed multipliers outside 0..full")
            m.close(Et.sum(axis=0), np.clip(counts[list(win)], a, b) - a, "transfers in the time window per pixel", 1e-11, tot)
            m.check((Mt == M).all(), "the monitored transfers depend on the time window")
            rest = 0
            cuts = [0, a, b, int(counts.max()) + 1]
            for x, y in zip(cuts, cuts[1:]):
                if y > x:
                    rest = rest + call(offset=off, time_window_range=range(x, y))[0]
            m.close(rest, E, "time windows do not add up to the readout", 1e-10, mult)
            m.ev("timed")
        sv = np.array(valid_call(roe.save_trap_states_matrix_from_express_matrix, express_matrix=M.astype(float)))
        m.check(sv.shape == M.shape, "shape of the save matrix")
        if c["type"] == "ci" or c["first"]:
            m.check(not sv.any(), "trap states are saved although every transfer starts with empty traps")
        else:
            m.check((sv.sum(axis=1) <= 1).all(), "saved more than once in a pass")
            for j in range(len(M) - 1):
                nx = np.nonzero(M[j + 1])[0]
                if sv.shape[1] > 1 and len(nx) and nx[0] >= 1:
                    m.check(sv[j, nx[0] - 1] == 1, "states saved in the wrong place")
            m.ev("saves")
        m.nt(E.sum() > 0)


# ------------------------------------------------------------------------------------------- C15
class C15(Prop):
    id = "C15"
    quick, thorough = 1920, 48000
    rule = ("random readouts at express 1, 2, 3, n-1, n, above n: against the independent model, the exact readout, and each other; "
            "non-trivial when express changed the output")
    required = {"conform": 400, "alias": 200, "approximate": 100, "int": 150, "first_false": 150, "multi_phase": 150, "bounded": 100, "long": 10}
    BOUND = {1: 1.0, 2: 1.0, 3: 1.0, 5: 1.0}

    def gen(self, rng, i):
        n = S.phases(rng)
        weak = i % 3 == 0
        rows = S.size(rng, 8, 16) if weak else S.size(rng, 2, 12)
        c = base_case(rng, rows=rows, cols=1 if weak else int(rng.integers(1, 3)), n_phases=1 if weak else n, regime="abundant" if weak else None,
                      dens=0.0003 if weak else None, mode=str(rng.choice(["uniform", "flat", "decreasing"])) if weak else None)
        n = len(c["roe"]["dwell"])
        c["roe"].update(first=True if weak else bool(rng.random() < 0.5), between=bool(rng.random() < 0.8), away=bool(n == 1 or rng.random() < 0.7),
                        int=bool(rng.random() < 0.4))
        c["offset"] = S.count(rng, (0, 0, 3), 25)
        c["express"] = int(rng.choice([1, 2, 3, 5] if weak else [1, 1, 2, 3, max(1, rows - 1)]))
        if i % 60 == 7:
            c = base_case(rng, rows=int(rng.integers(50, 120)), n_phases=1)
            c["roe"].update(first=bool(rng.random() < 0.5), int=bool(rng.random() < 0.4))
            c["express"], c["offset"] = int(rng.choice([1, 2, 3, 5, 10])), int(rng.choice([0, 24, 60]))
        c["weak"] = weak
        return c

    def run(self, c, m):
        ac = AC()
        im, s = S.img(c["image"]), max(top(c), 1e-3)
        got = valid_call(ac.add_cti, im, **S.kwargs(ac, c))
        conform(m, c, got, f"express={c['express']}")
        m.ev("conform")
        m.ev("long", im.shape[0] >= 50)
        m.ev("int", c["roe"]["int"])
        m.ev("first_false", not c["roe"]["first"])
        m.ev("multi_phase", len(c["roe"]["dwell"]) > 1)
        full = valid_call(ac.add_cti, im, **S.kwargs(ac, dict(c, express=0)))
        N = im.shape[0] + c["offset"]
        for e in (N, N + 1, 10 * N):
            same(m, valid_call(ac.add_cti, im, **S.kwargs(ac, dict(c, express=e))), full,
                 f"express={e} and computing every transfer", s, 1e-10)
            m.ev("alias")
        d = float(np.abs(got - full).max())
        if d > 1e-9 * s:
            m.ev("approximate")
            m.nt()
        if c["weak"]:
            eff = float(np.abs(full - im).max())
            m.ev("bounded")
            m.check(d <= self.BOUND[c["express"]] * eff + 1e-9 * s,
                    f"express={c['express']} is off by {d / max(eff, 1e-300):.3g} of the effect")


# ------------------------------------------------------------------------------------------- C18
class C18(Prop):
    id = "C18"
    quick, thorough = 720, 9000
    rule = "clock sequences of every ROE type for 1-9 phases against the geometry of clouds moving past phases"
    required = {"std": 80, "ci": 40, "pump": 60, "split": 200, "moved": 200, "refused": 100}

    def gen(self, rng, i):
        t = ("std", "ci", "pump", "std")[i % 4]
        n = int(rng.integers(1, 10))
        away = bool(rng.random() < 0.6)
        return {"type": t, "n": n, "away": away, "dwell": [S.r6(x) for x in rng.uniform(0.1, 1, n if t != "pump" else 2 * n)],
                "first": bool(rng.random() < 0.5), "between": bool(rng.random() < 0.5), "scalar": bool(rng.random() < 0.3)}

    def run(self, c, m):
        ac = AC()
        if c["scalar"] and len(c["dwell"]) == 1:
            roe = valid_call(ac.ROE if c["type"] == "std" else ac.ROEChargeInjection, dwell_times=c["dwell"][0], force_release_away_from_readout=c["away"])
        else:
            roe = valid_call(S.roe, ac, c)
        m.ev(c["type"])
        m.check(list(roe.dwell_times) == c["dwell"], "dwell times changed")
        n, steps = c["n"], len(c["dwell"])
        pump = c["type"] == "pump"
        m.check(roe.n_steps == steps and roe.n_phases == n, f"{roe.n_steps} steps and {roe.n_phases} phases")
        ops = R.phase_ops(n, steps, c["away"] and not pump, pump)
        seq = roe.clock_sequence
        m.check(len(seq) == steps and all(len(x) == n for x in seq), "shape of the clock sequence")
        used = {0}
        for s in range(steps):
            m.check(sum(bool(p.is_high) for p in seq[s]) == 1, f"step {s}: not exactly one high phase")
            for f in range(n):
                p = seq[s][f]
                high, cap, rel = ops[s][f]
                to = [int(x) for x in np.ravel(p.release_to_which_pixels)]
                fr = [float(x) for x in np.ravel(p.release_fraction_to_pixel)]
                m.check(bool(p.is_high) == high, f"step {s} phase {f}: high is {p.is_high}")
                m.check(int(p.capture_from_which_pixel) == cap, f"step {s} phase {f}: captures from {p.capture_from_which_pixel}, expected {cap}")
                m.check(len(to) == len(fr) and abs(sum(fr) - 1) < 1e-12, f"step {s} phase {f}: released fractions {fr}")
                m.check(sorted(zip(to, fr)) == sorted((q, w) for q, w in rel), f"step {s} phase {f}: releases to {to} {fr}, expected {rel}")
                m.check(p.is_high is False or not high or to == [cap], "the high phase releases to another cloud")
                m.ev("split", len(to) > 1)
                m.ev("moved", cap != 0)
                used |= {cap, *to}
        got = sorted(int(x) for x in np.ravel(roe.pixels_accessed_during_clocking))
        m.check(got == sorted(used), f"pixels accessed {got}, expected {sorted(used)}")
        if not pump and c["away"]:
            m.check(min(got) >= 0, "charge moves towards the readout register")
        m.nt()
        if pump:
            # a there-and-back sequence has an even number of steps
            for bad in (c["dwell"][:-1], c["dwell"] + [1.0], 1.0):
                try:
                    ac.ROETrapPumping(dwell_times=bad)
                except Exception:
                    m.ev("refused")
                else:
                    raise Violation(f"pumping with {np.size(bad)} steps was accepted")


PROPS = {p.id: p for p in (C08, C09, C10, C11, C12, C13, C14, C15, C18)}

"""C21: no out-of-range access, whatever the sizes - run with checked indexing and under address/undefined sanitizers"""
import numpy as np

import spec as S
from harness import Prop, Violation, valid_call
from props import managers as MG, modes as MO, readout as RO
from props.physics import base_case
from props.readout import any_mode


def AC():
    import arcticpy
    return arcticpy


class C21(Prop):
    id = "C21"
    quick, thorough = 1000, 18000
    variants = ("bounds", "asan")
    rule = ("readouts of every kind and size from 1x1, windows, offsets and repeat counts beyond the image, traps never emptied, "
            "manager histories longer than planned, and the compiled helpers on random arrays; every compiled access checked")
    required = {"readout": 300, "pump": 80, "manager": 80, "helper": 80, "tiny": 40, "carried": 60, "first_false": 60, "longer": 30,
                "continuum": 4, "serial": 80, "multi_phase": 150, "overfull": 20, "dark": 10}

    def gen(self, rng, i):
        kind = ("readout", "readout", "readout", "pump", "manager", "helper", "readout", "extreme")[i % 8]
        if kind == "manager":
            k = ("slow", "instant", "slow", "instant", "track", "continuum")[(i // 8) % 6]
            c = MG.gen_manager_case(rng, "instant" if k == "track" else k, max_len=6 if k == "continuum" else 40, n_species=1 if k == "continuum" else 4)
            c["track"] = k == "track"
            c["planned"] = int(rng.integers(1, len(c["history"]) + 1))
            if k in ("slow", "instant") and rng.random() < 0.3:
                # every dark visit after a bright one adds a level: the clouds released get smaller and smaller
                L = int(rng.integers(20, 60))
                c["history"] = [max(c["history"]) or c["full_well"]] + [0.0] * L
                c["dwell"] = [c["dwell"][0]] * (L + 1)
                c["planned"] = int(rng.integers(1, 6))
                c["dark"] = True
            return {"kind": kind, "m": c}
        if kind == "helper":
            a = int(rng.integers(1, 9))
            v = rng.uniform(0, 0.2, a)
            v[int(rng.integers(a)):] = 0
            return {"kind": kind, "volumes": [float(x) for x in v] + [0.0] * int(rng.integers(1, 4)), "species": int(rng.integers(1, 4)),
                    "q": float(rng.uniform(0, 1)), "pick": float(rng.random())}
        if kind == "pump":
            c = MO.C17().gen(rng, i)
            return {"kind": kind, "c": c}
        n = int(rng.choice([1, 1, 2, 3, 4, 6]))
        rows, cols = (1, 1) if rng.random() < 0.1 else (int(rng.integers(1, 12)), int(rng.integers(1, 5)))
        long = n == 1 and i % 64 and rng.random() < 0.06
        if long:
            rows, cols = (int(rng.integers(60, 200)), 1) if rng.random() < 0.7 else (2, int(rng.integers(60, 200)))
        c = base_case(rng, rows=rows, cols=cols, n_phases=n, n_groups=int(rng.choice([1, 1, 2])), mode="saturated" if kind == "extreme" and i % 3 == 0 else None,
                      kinds=("slow", "instant") if i % 64 else ("continuum",))
        any_mode(rng, c, n, rows)
        if i % 64 == 0:
            c["image"] = [r[:1] for r in c["image"][:3]]
            rows, cols = len(c["image"]), 1
        c["roe"].update(between=bool(rng.random() < 0.5), away=bool(rng.random() < 0.6))
        if c["roe"]["type"] == "ci":
            c["roe"]["n_transfers"] = int(rng.choice([1, rows, rows + 7]))
        if kind == "extreme":
            c["offset"] = int(rng.choice([0, 7, 40]))
            c["express"] = int(rng.choice([1, rows, rows + 50]))
        if long and rows > 2:
            c["express"] = int(rng.choice([1, 2, 3]))
        if rng.random() < 0.4:
            a = int(rng.integers(0, rows))
            c["window"] = [a, int(rng.integers(a + 1, rows + 1))]
        if rng.random() < 0.3:
            a = int(rng.integers(0, rows + 3))
            c["time_window"] = [a, a + int(rng.integers(1, rows + 5))]
        if rng.random() < 0.2:
            c["roe"]["dwell"] = [x if rng.random() < 0.7 else 0.0 for x in c["roe"]["dwell"]]
        c["dir"] = str(rng.choice(["parallel", "parallel", "serial", "both"]))
        x = int(rng.integers(0, cols))
        c["cw"] = [x, int(rng.integers(x + 1, cols + 1))]
        return {"kind": "readout", "c": c}

    def run(self, c, m):
        getattr(self, c["kind"])(c, m)
        m.nt()

    def readout(self, w, m):
        ac, c = AC(), w["c"]
        im = S.img(c["image"])
        if c["dir"] == "parallel":
            out = valid_call(ac.add_cti, im, serial_window_range=range(*c["cw"]), **S.kwargs(ac, c))
        elif c["dir"] == "serial":
            k = S.kwargs(ac, dict(c, time_window=None), "serial")
            out = valid_call(ac.add_cti, im.T.copy(), **k).T
        else:
            k = S.kwargs(ac, c)
            k.update(S.kwargs(ac, dict(c, window=None, time_window=None), "serial"))
            out = valid_call(ac.add_cti, im, **k)
        m.check(out.shape == im.shape and np.isfinite(out).all(), "shape or values of the result")
        m.ev("readout")
        m.ev("serial", c["dir"] != "parallel")
        m.ev("tiny", im.size == 1 or im.shape[0] == 1)
        m.ev("carried", not c["roe"]["between"] and im.shape[1] > 1)
        m.ev("first_false", not c["roe"].get("first", True))
        m.ev("multi_phase", len(c["roe"]["dwell"]) > 1)
        m.ev("overfull", im.max() > S.min_well(c["ccd"]))
        m.ev("continuum", c["groups"][0]["kind"] == "continuum")

    def pump(self, w, m):
        ac, c = AC(), w["c"]
        out = valid_call(ac.add_cti, S.img(c["image"]), **S.kwargs(ac, c))
        m.check(np.isfinite(out).all(), "values of the result")
        m.ev("pump")

    def manager(self, w, m):
        c = w["m"]
        tm = MG.real_manager(c, c["track"], c["planned"])
        f = MG.well(c)
        for j, (n, dt) in enumerate(zip(c["history"], c["dwell"])):
            MG.step(tm, n, dt, f)
            if c["kind"] != "slow" and j % 3 == 2:
                valid_call(tm.n_electrons_released, dwell_time=dt)
        MG.trapped(tm)
        m.ev("manager")
        m.ev("dark", c.get("dark", False))
        m.ev("longer", c["planned"] < len(c["history"]))
        m.ev("continuum", c["kind"] == "continuum")

    def helper(self, w, m):
        """the public wrappers of the compiled watermark helpers, on arrays of every size"""
        ac = AC()
        v = np.array(w["volumes"])
        n_act = int((v > 0).sum())
        tm = ac.TrapManager(traps=[ac.Trap(density=2.0 + j) for j in range(w["species"])], max_n_transfers=len(v))
        W = np.zeros((len(v), 1 + w["species"]))
        W[:, 0] = v
        W[:n_act, 1:] = w["q"]
        cum = np.cumsum(v)
        tot = float(cum[-1])
        dens = np.array([2.0 + j for j in range(w["species"])])
        m.close(tm.n_trapped_electrons_from_watermarks(W), float((W[:, :1] * W[:, 1:] * dens).sum()), "electrons in the levels", 1e-12)
        m.ev("helper")
        if not hasattr(tm, "watermark_index_above_cloud_from_cloud_fractional_volume"):
            return
        if n_act == 0:
            return
        for x in (w["pick"] * tot, 1.0, tot, float(cum[0])):
            i = int(tm.watermark_index_above_cloud_from_cloud_fractional_volume(cloud_fractional_volume=x, watermarks=W, max_watermark_index=n_act - 1))
            if x > tot + 1e-9:
                exp = n_act
            else:
                exp = int(np.argmax(x - cum <= 1e-12))
            m.check(i == exp, f"level above a cloud of volume {x}: {i}, expected {exp}")
            m.ev("search")


PROPS = {p.id: p for p in (C21,)}

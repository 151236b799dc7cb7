"""Independent reference model of the volume-driven trap model documented in the README and docstrings.

Trap occupancy is a step function of height in the well: a list of [top, [fill per species]] with
strictly increasing absolute tops (the code under test stores relative volumes in a fixed-size
array).  Nothing here imports the package under test.
"""
import math

INF = float("inf")


def fill_volume(n, full_well, notch, power):
    if n == 0:
        return 0.0
    x = (n - notch) / (full_well - notch)
    return min(max(x, 0.0), 1.0) ** power


class RefManager:
    """kind: 'slow' (combined release+capture, Lindegren) or 'instant' (release, then fill).

    snap: heights closer than this count as equal.  A repeated cloud that traps can empty is a fixed point of
    the step that rounding leaves exponentially; comparing a model that snaps with one that is disturbed shows where."""

    snap = 0.0

    def __init__(self, kind, species, scale=1.0):
        # species: list of (density, release timescale, capture timescale)
        self.kind = kind
        self.dens = [d * scale for d, _, _ in species]
        self.re = [1.0 / r for _, r, _ in species]
        self.rc = [INF if c == 0 else 1.0 / c for _, _, c in species]
        self.levels = []
        self.events = {"first": 0, "below": 0, "above": 0, "scarce": 0, "overshoot": 0, "merge": 0, "equal": 0,
                       "recapture": 0}

    # -- queries
    def trapped(self, levels=None):
        tot, lo = 0.0, 0.0
        for top, f in self.levels if levels is None else levels:
            tot += (top - lo) * sum(a * b for a, b in zip(f, self.dens))
            lo = top
        return tot

    def empty(self):
        self.levels = []

    def copy_state(self):
        return [[t, list(f)] for t, f in self.levels]

    # -- helpers
    def _probs(self, dt):
        fe, ff, fr = [], [], []
        for c, e in zip(self.rc, self.re):
            if c == INF:
                fe.append(1.0)
                ff.append(1.0)
            else:
                k = -math.expm1(-(c + e) * dt) / (c + e)
                fe.append(c * k)
                ff.append(1 - e * k)
            fr.append(math.exp(-e * dt))
        return fe, ff, fr

    def _snapped(self, v, *near):
        for x in near + tuple(lv[0] for lv in self.levels):
            if abs(x - v) <= self.snap:
                return x
        return v

    def _split(self, v, also=None):
        """make v a level boundary, extending upwards with empty traps"""
        for lv in (self.levels, also):
            if lv is None:
                continue
            if not lv or v > lv[-1][0]:
                lv.append([v, [0.0] * len(self.dens)])
                continue
            for i, (top, f) in enumerate(lv):
                if v == top:
                    break
                if v < top:
                    lv.insert(i, [v, list(f)])
                    break

    def _merge_full(self, also=None):
        k = 0
        while k < len(self.levels) and all(x == 1.0 for x in self.levels[k][1]):
            k += 1
        if k <= 1:
            return
        self.events["merge"] += 1
        top = self.levels[k - 1][0]
        if also is not None:
            m, lo = [0.0] * len(self.dens), 0.0
            for t, f in also[:k]:
                for j, x in enumerate(f):
                    m[j] += (t - lo) * x
                lo = t
            also[:k] = [[top, [x / top for x in m]]]
        self.levels[:k] = [[top, [1.0] * len(self.dens)]]

    def _limit(self, before, n_avail, trapped0):
        """scale the whole change back when it would use more electrons than there are"""
        net = self.trapped() - trapped0
        if net > n_avail:
            self.events["scarce"] += 1
            q = max(n_avail, 0.0) / net
            for lv, lv0 in zip(self.levels, before):
                lv[1] = [q * a + (1 - q) * b for a, b in zip(lv[1], lv0[1])]

    # -- one visit of a charge cloud; returns the net number of electrons given back to it
    def step(self, n, dt, vol):
        return self._step_slow(n, dt, vol) if self.kind == "slow" else self._step_instant(n, dt, vol)

    def _top(self):
        return self.levels[-1][0] if self.levels else 0.0

    def _step_slow(self, n, dt, vol):
        fe, ff, fr = self._probs(dt)
        t0 = self.trapped()
        before = self.copy_state()
        v = self._snapped(vol(n))
        n2, v2 = n, v
        if not self.levels:
            if n <= 0 or v <= 0:
                return 0.0
            self.events["first"] += 1
            self._split(v, before)
        elif v > self._top():
            self.events["above"] += 1
            self._split(v, before)
        else:
            self.events["below"] += 1
            if v > 0:
                self._split(v, before)
            for lv in self.levels:
                if lv[0] > v:
                    lv[1] = [a * b for a, b in zip(lv[1], fr)]
            n2 = n + t0 - self.trapped()
            v2 = self._snapped(vol(n2), v)
            if v2 > v:
                self.events["recapture"] += 1
            if v2 > self._top():
                self.events["overshoot"] += 1
            if v2 > 0:
                self._split(v2, before)
        for lv in self.levels:
            if lv[0] <= v2:
                lv[1] = [f * a + (1 - f) * b for f, a, b in zip(lv[1], ff, fe)]
        self._merge_full(before)
        self._limit(before, n, t0)
        self._merge_full()
        return t0 - self.trapped()

    def _step_instant(self, n, dt, vol):
        _, _, fr = self._probs(dt)
        ta = self.trapped()
        for lv in self.levels:
            lv[1] = [a * b for a, b in zip(lv[1], fr)]
        t0 = self.trapped()
        n2 = n + ta - t0
        before = self.copy_state()
        v = self._snapped(vol(n2))
        if v > 0:
            self.events["first" if not self.levels else "above" if v > self._top() else "below"] += 1
            self._split(v, before)
            for lv in self.levels:
                if lv[0] <= v:
                    lv[1] = [1.0] * len(self.dens)
            self._merge_full(before)
            self._limit(before, n2, t0)
            self._merge_full()
        return ta - self.trapped()

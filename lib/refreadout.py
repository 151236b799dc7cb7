"""Independent reference for a full readout: which cloud visits which traps, when, and how often.

Derived from the documentation: geometry of clouds and phases, the number of pixel-to-pixel
transfers each pixel makes, and the documented express algorithm.  Imports nothing from the
package under test.
"""
import math

from refmodel import RefManager, fill_volume


# ---------------------------------------------------------------- clocking geometry
def high_position(step, n, pump):
    """how many phases towards readout the clouds have moved at this step"""
    if not pump:
        return step
    s = step % (2 * n)
    return s if s <= n else 2 * n - s


def phase_ops(n, n_steps, away, pump=False):
    """[step][phase] -> (is_high, cloud captured from, [(cloud released to, fraction)])
    for the traps in `phase` of physical pixel 0; cloud q is the one that starts in pixel q.
    Coordinate: x grows towards readout; pixel p, phase f is at x = f - p n."""
    out = []
    for step in range(n_steps):
        k = high_position(step, n, pump)
        row = []
        for f in range(n):
            d = {q: abs((k - q * n) - f) for q in range(-3, 5)}
            m = min(d.values())
            near = sorted(q for q in d if d[q] == m)
            high = m == 0
            cap = near[0]
            rel = [(q, 1.0 / len(near)) for q in near]
            if away and f > k % n:
                # closer to readout than this step's own high phase: act on the next cloud instead
                cap += 1
                rel = [(q + 1, w) for q, w in rel]
            row.append((high, cap, rel))
        out.append(row)
    return out


# ---------------------------------------------------------------- how often each transfer counts
def weights(kind, n, express, offset, first=True, is_int=False, n_transfers=None, n_pumps=1):
    """[pass][pixel] multipliers of one readout, for pixels 0..n-1 (offset already removed)"""
    if kind == "ci":
        N = n + offset if n_transfers is None else n_transfers
        k = N if express == 0 else min(express, N)
        if not is_int:
            return [[N / k] * n for _ in range(k)]
        m = math.ceil(N / k)
        left, rows = N, []
        for _ in range(k):
            w = min(m, left)
            left -= w
            rows.append([w] * n)
        return rows[::-1]
    tot = n + offset
    k = tot if express == 0 else min(express, tot)
    if first and k < n:
        base = weights("std", tot - 1, k, 0, first=False, is_int=is_int)
        W = [[1.0 if p == tot - 1 - j else 0.0 for p in range(tot)] for j in range(tot)]
        for row in base:
            nz = sum(1 for x in row if x > 0)
            if nz:
                for p, x in enumerate(row):
                    W[nz][p + 1] += x
    else:
        m = tot / k
        if is_int:
            m = math.ceil(m)
        W = [[min(max(p + 1 - e * m, 0), m) for p in range(tot)] for e in range(k)]
    return [row[offset:] for row in W]


def time_restrict(W, tw):
    if tw is None:
        return W
    a, b = tw
    out, cum = [], [0.0] * len(W[0]) if W else []
    for row in W:
        r = []
        for p, x in enumerate(row):
            lo, hi = cum[p], cum[p] + x
            r.append(max(0.0, min(hi, b) - max(lo, a)))
            cum[p] = hi
        out.append(r)
    return out


# ---------------------------------------------------------------- the readout
def managers(groups, c, n_phases):
    fr = c.get("fractions", [1.0])
    tot = sum(fr)
    return [[RefManager("slow" if g["kind"] == "slow" else "instant", g["species"], scale=fr[f] / tot)
             for g in groups] for f in range(n_phases)]


def well(c, f):
    if c.get("custom"):
        return lambda n: n / (n + c["custom"])
    g = lambda k, d: (c.get(k, d)[f] if isinstance(c.get(k, d), list) else c.get(k, d))
    fw, no, po = g("full_well", None), g("notch", 0.0), g("power", 0.58)
    return lambda n: fill_volume(n, fw, no, po)


def readout(columns, c, groups, roe=None, express=0, offset=0, window=None, time_window=None, stats=None,
            default_time_window=None):
    """columns: list of columns (each a list of pixel values, row 0 next to the readout)"""
    roe = roe or {}
    kind = roe.get("type", "std")
    nph = len(c.get("fractions", [1.0]))
    dwell = roe.get("dwell", [1.0])
    away = roe.get("away", True) and kind != "pump"
    ops = phase_ops(nph, len(dwell), away, pump=kind == "pump")
    vols = [well(c, f) for f in range(nph)]
    fr = c.get("fractions", [1.0])
    nrow = len(columns[0])
    win = list(range(nrow)) if window is None else ([window] if isinstance(window, int) else list(range(*window)))
    first = roe.get("first", True)
    ms = managers(groups, c, nph)
    empty = [[[] for _ in m] for m in ms]

    def snap():
        return [[x.copy_state() for x in m] for m in ms]

    def load(s):
        for m, q in zip(ms, s):
            for x, st in zip(m, q):
                x.levels = [[t, list(f)] for t, f in st]

    def visit(img, r, w, lo):
        for s in range(len(dwell)):
            if dwell[s] <= 0:
                continue
            for f in range(nph):
                if fr[f] <= 0:
                    continue
                high, cap, rel = ops[s][f]
                n = img.get(r + cap, 0.0) if high else 0.0
                net = sum(m.step(n, dwell[s], vols[f]) for m in ms[f])
                if w == 0:
                    continue
                for q, x in rel:
                    img[r + q] = max(0.0, img.get(r + q, 0.0) + net * x * w)

    saved = empty
    out = []
    if kind == "pump":
        N = roe.get("n_pumps", 1)
        k = N if express == 0 else min(express, N)
        if first and N > 1 and k < N:
            mult = [1.0] + [(N - 1) / k] * k
        else:
            mult = [N / k] * k
        for col in columns:
            img = dict(enumerate(col))
            for r in win:
                load(empty)
                for w in mult:
                    visit(img, r, w, 0)
            out.append([img[i] for i in range(nrow)])
        return out

    nmax = max(win) + 1
    W = weights(kind, nmax, express, offset, first, roe.get("int", False), roe.get("n_transfers"))
    M = [[x > 0 for x in row] for row in W]
    tw = time_window if time_window is not None else default_time_window
    W = time_restrict(W, tw)
    saved = empty
    for col in columns:
        img = dict(enumerate(col))
        for e in range(len(W)):
            load(saved)
            save_after = None
            if kind == "std" and not first and e + 1 < len(W):
                nxt = [i for i, r in enumerate(win) if M[e + 1][r]]
                later = [i for i in nxt if i >= 1]
                i0 = (later[0] - 1) if later else max(len(win) - 2, 0)
                save_after = win[i0]
            keep = None
            for r in win:
                if M[e][r]:
                    visit(img, r, W[e][r], 0)
                    if r == save_after:
                        keep = snap()
            if keep is not None:
                saved = keep
            if stats is not None:
                stats["left"] = stats.get("left", 0.0) + sum(m.trapped() for p in ms for m in p)
        if stats is not None:
            stats["outside"] = stats.get("outside", 0.0) + sum(v for k, v in img.items() if not 0 <= k < nrow)
        saved = empty if roe.get("between", True) else snap()
        out.append([img[i] for i in range(nrow)])
    if stats is not None:
        for p in ms:
            for m in p:
                for k, v in m.events.items():
                    stats[k] = stats.get(k, 0) + v
    return out

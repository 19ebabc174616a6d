"""Reference model for the Python checks, with rounding bounds (see harness/core/src/oracle.rs).

Along one axis every method is a weighted sum of at most four node values.  For each axis: the
weights w, non-negative majorants a of every intermediate weight, and error weights e.  The value,
majorant and error bound are contracted together over the axes."""
import itertools
import math

import numpy as np

K = 48.0
EPS = {"f8": 2.0**-52, "f4": 2.0**-23}
MAXV = {"f8": 1.7e308, "f4": 3.4e38}
TINY = {"f8": 2.3e-308, "f4": 1.2e-38}


class Axis:
    """One grid axis.  `delta`: how far (absolutely) the nodes an evaluator works with may be from
    the given ones, e.g. when a coordinate array is re-expressed as start and step."""

    def __init__(self, nodes=None, start=None, step=None, n=None, delta=0.0):
        self.regular = nodes is None
        if self.regular:
            self.start, self.step, self.n = float(start), float(step), int(n)
        else:
            self.g = [float(v) for v in nodes]
            self.n = len(self.g)
            self.start = self.g[0]
            self.step = 0.0
        self.delta = float(delta)

    def at(self, i):
        return self.start + self.step * i if self.regular else self.g[i]

    def cell(self, x):
        lo, hi = 0, self.n - 1
        while hi - lo > 1:
            m = (lo + hi) // 2
            if self.at(m) <= x:
                lo = m
            else:
                hi = m
        return min(lo, self.n - 2)

    def coord_err(self, x, node, eps):
        if not self.regular:
            return 0.0
        return 4 * eps * (abs(x) + 2 * abs(self.start) + 2 * abs(self.step * (node + 2)))


def _cell_op(method, lin, ax, c, x, eps):
    n = ax.n
    g0, g1 = ax.at(c), ax.at(c + 1)
    h = ax.step if ax.regular else g1 - g0
    s = (x - g0) / h
    dt = ax.coord_err(x, c, eps) / h + 4 * eps * (abs(s) + 1)
    if method == "linear":
        return [[c, 1 - s, 1 + abs(s), 1.0], [c + 1, s, abs(s), 1.0]], dt, h, h
    base = 0 if c == 0 else min(c - 1, n - 4)
    t = [[base + k, 0.0, 0.0, 0.0] for k in range(4)]

    def slope(i):
        a, b = (ax.step, ax.step) if ax.regular else (ax.at(i) - ax.at(i - 1), ax.at(i + 1) - ax.at(i))
        wl, wr = h * b / (a * (a + b)), h * a / (b * (a + b))
        return [(i - 1, -wl, wl), (i, wl - wr, wl + wr), (i + 1, wr, wr)]

    def add(node, w, a, d):
        e = t[node - base]
        e[1] += w
        e[2] += a
        e[3] += d

    m = max(abs(s), abs(1 - s))
    if 0 < c < n - 2:
        pd, pdd = 2 * m + 3 * m * m + 2 * m**3, 2 + 6 * m + 6 * m * m
        add(c, 1 - 3 * s * s + 2 * s**3, 1 + pd, pdd)
        add(c + 1, 3 * s * s - 2 * s**3, pd, pdd)
        pk, pkd = m + 2 * m * m + m**3, 1 + 4 * m + 3 * m * m
        for i, hk in ((c, s - 2 * s * s + s**3), (c + 1, s**3 - s * s)):
            for j, w, a in slope(i):
                add(j, hk * w, pk * a, pkd * a)
    else:
        # end cell: the parabola through both nodes with the slope of the inner one; r runs from
        # the inner node (0) to the end node (1) and beyond
        inner, end, r, sgn = (c + 1, c, 1 - s, -1.0) if c == 0 else (c, c + 1, s, 1.0)
        if r > 1 and lin:
            q = r - 1
            wi, we, wk = -2 * q, 1 + 2 * q, -q
            q = m + 1
            pd, pdd, pk, pkd = 4 * q + 1, 8.0, 2 * q, 4.0
        else:
            wi, we, wk = 1 - r * r, r * r, r - r * r
            pd, pdd = 2 * m + 5 * m * m + 4 * m**3, 2 + 10 * m + 12 * m * m
            pk, pkd = m + 3 * m * m + 2 * m**3, 1 + 6 * m + 6 * m * m
        add(inner, wi, 1 + pd, pdd)
        add(end, we, 1 + pd, pdd)
        for j, w, a in slope(inner):
            add(j, sgn * wk * w, pk * a, pkd * a)
    hmin = min([h] + [ax.at(i + 1) - ax.at(i) for i in range(base, base + 3)])
    return t, dt, h, hmin


def axis_op(method, lin, ax, x, eps):
    """(first node, w, a, e) at coordinate x"""
    n, c, delta = ax.n, ax.cell(x), ax.delta
    ops = [(c, _cell_op(method, lin, ax, c, x, eps))]
    # a rounding error may put x into the neighbouring cell; both agree there up to the bound
    tol = 2 * ax.coord_err(x, c + 1, eps) + 2 * delta
    if c > 0 and abs(x - ax.at(c)) <= tol:
        ops.append((c - 1, _cell_op(method, lin, ax, c - 1, x, eps)))
    elif c + 2 < n and abs(x - ax.at(c + 1)) <= tol:
        ops.append((c + 1, _cell_op(method, lin, ax, c + 1, x, eps)))
    base = min(o[0][0][0] for _, o in ops)
    last = max(o[0][-1][0] for _, o in ops)
    w, a, e = np.zeros(last - base + 1), np.zeros(last - base + 1), np.zeros(last - base + 1)
    for k, (cell, (t, dt, h, hmin)) in enumerate(ops):
        s = abs((x - ax.at(cell)) / h)
        rel = delta / hmin
        for node, tw, ta, td in t:
            j = node - base
            if k == 0:
                w[j] = tw
            a[j] = max(a[j], ta)
            e[j] += K * eps * ta + 2 * dt * td + rel * (16 * ta + 4 * (s + 1) * td)
    return base, w, a, e


def reference(method, lin, axes, vals, x, dt):
    """value, majorant, error bound of a linear or cubic interpolant at point x; vals has the grid's shape"""
    ops = [axis_op(method, lin, ax, float(xi), EPS[dt]) for ax, xi in zip(axes, x)]
    sub = vals[tuple(slice(b, b + len(w)) for b, w, _, _ in ops)].astype(np.float64)
    v, a, e = sub, np.abs(sub), np.zeros(sub.shape)
    with np.errstate(all="ignore"):
        for _, w, wa, we in reversed(ops):
            e = e @ wa + (a + e) @ we
            v, a = v @ w, a @ wa
    return float(v), float(a), float(e) + 1e3 * TINY[dt]


def nearest_picks(ax, x, eps):
    """acceptable nearest nodes on one axis"""
    c = ax.cell(x)
    g0, g1 = ax.at(c), ax.at(c + 1)
    d0, d1 = abs(x - g0), abs(g1 - x)
    if x <= g0 - 2 * ax.delta - 2 * ax.coord_err(x, c + 1, eps) and c == 0:
        return (0,)
    if x >= g1 + 2 * ax.delta + 2 * ax.coord_err(x, c + 1, eps) and c == ax.n - 2:
        return (ax.n - 1,)
    tol = ax.coord_err(x, c + 1, eps) + 4 * eps * abs(g1 - g0) + ax.delta
    if abs(d0 - d1) <= 2 * tol:
        return (c, c + 1)
    return (c,) if d0 < d1 else (c + 1,)


def judge(method, lin, axes, vals, x, got, dt):
    """None if `got` is an acceptable result at x, "skip" if it cannot be judged, else a message"""
    if method == "nearest":
        picks = [nearest_picks(ax, float(xi), EPS[dt]) for ax, xi in zip(axes, x)]
        if math.prod(map(len, picks)) > 256:
            return "skip"
        for ix in itertools.product(*picks):
            if vals[ix].tobytes() == got.tobytes():
                return None
        return f"nearest value is at {picks}: {vals[tuple(p[0] for p in picks)]!r}, got {got!r}"
    v, a, e = reference(method, lin, axes, vals, x, dt)
    if not (math.isfinite(v) and math.isfinite(a) and math.isfinite(e)) or a > MAXV[dt] * 1e-6:
        return "skip"
    if not abs(float(got) - v) <= e:
        return f"expected {v!r} +- {e:.3g}, got {float(got)!r} ({method}, lin={lin})"
    return None

"""Cases as small JSON values, and the arrays they stand for."""
import math

import numpy as np
from hypothesis import strategies as st

DT = {"f8": np.float64, "f4": np.float32}
MINPTS = {"linear": 2, "nearest": 2, "cubic": 4}
MAXDIMS = {"linear": 8, "cubic": 8, "nearest": 6}
REG = ["unit", "dyadic", "decimal", "random", "offset", "big", "small", "negative"]
VALS = ["normal", "ints", "spike", "large", "small", "mixed", "affine"]
OBS = ["mixed", "inside", "nodes", "mid", "outside", "far", "near", "veryfar"]
LAYOUTS = ["c", "f", "strided", "reversed", "transposed", "misaligned", "readonly", "rowstrided"]
SEED = st.integers(0, 2**32 - 1)


@st.composite
def problem(draw, methods=("linear", "cubic", "nearest"), kinds=("regular", "rectilinear"), maxdims=8, scalar_shapes=True, empty=True, regular_styles=tuple(REG)):
    method = draw(st.sampled_from(methods))
    lo = MINPTS[method]
    nd = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 4, 5, 6, 7, 8]))
    nd = min(nd, MAXDIMS[method], maxdims)
    budget = 5000 if method != "cubic" else 70000 if nd == 8 else 20000
    dims, room = [], budget
    long = draw(st.sampled_from([12] * 9 + [300, 5000] if nd <= 2 else [12]))
    for i in range(nd):
        most = max(lo, min(long if i == 0 else 12, int(room / lo ** (nd - 1 - i))))
        dims.append(draw(st.integers(lo, most if i == 0 or nd <= 3 else min(most, lo + 3))))
        room //= dims[-1]
    c = {
        "method": method,
        "kind": draw(st.sampled_from(kinds)),
        "dtype": draw(st.sampled_from(["f8", "f4"])),
        "lin": draw(st.booleans()),
        "dims": dims,
        "axes": [[draw(st.sampled_from(regular_styles)), draw(SEED)] for _ in range(nd)],
        "vals": [draw(st.sampled_from(VALS)), draw(SEED)],
        "obs": [draw(st.sampled_from(OBS)), draw(SEED)],
    }
    top = 12 if nd <= 4 else 4
    shapes = [(draw(st.integers(1, top)),)]
    if scalar_shapes:
        shapes += [(draw(st.integers(1, 4)), draw(st.integers(1, 3)))] * 2 + [(2, 1, 3), ()]
    if empty:
        shapes += [(0,)]
    if nd <= 3 and draw(st.integers(0, 19)) == 7:
        # many points in one call
        shapes = [(draw(st.integers(100, 5000)),)]
        if scalar_shapes:
            shapes += [(draw(st.integers(20, 70)), draw(st.integers(20, 70)))]
    c["shape"] = list(draw(st.sampled_from(shapes)))
    # spacing of rectilinear axes: clearly uneven, even but for a small relative disturbance, or even but for one gap
    c["uneven"] = draw(st.sampled_from(["wild", "wild", "near", "one"]))
    return c


def axis_params(style, seed):
    r = np.random.default_rng(seed)
    return {
        "unit": (0.0, 1.0),
        "dyadic": (r.integers(-8, 8) * 0.5, 2.0 ** r.integers(-3, 4)),
        "decimal": (r.integers(-9, 10) / 10, r.integers(1, 30) / 10),
        "random": (r.uniform(-10, 10), 10 ** r.uniform(-1, 1.5)),
        "offset": (1000.0 + r.integers(0, 50), r.integers(4, 40) * 0.25),
        "big": (r.uniform(-1e9, 1e9), r.uniform(1e8, 1e9)),
        "small": (r.uniform(-1e-9, 1e-9), r.uniform(1e-10, 1e-9)),
        "negative": (-100.0 - r.integers(0, 9), r.integers(1, 9) * 1.0),
    }[style], r


class Built:
    """The arrays of a case."""

    def __init__(self, c):
        self.c = c
        dt = self.dt = DT[c["dtype"]]
        self.method, self.lin, self.kind = c["method"], c["lin"], c["kind"]
        self.dims = list(c["dims"])
        self.nd = len(self.dims)
        self.starts, self.steps, self.grids = np.zeros(self.nd, dt), np.zeros(self.nd, dt), []
        for i, ((style, seed), n) in enumerate(zip(c["axes"], self.dims)):
            (start, step), r = axis_params(style, seed)
            self.starts[i], self.steps[i] = start, step
            if self.kind == "regular":
                g = self.starts[i] + self.steps[i] * np.arange(n, dtype=dt)
            else:
                if c.get("uneven") == "near":
                    w = step * (1 + r.uniform(-1, 1, n - 1) * 10 ** r.uniform(-7, -2))
                elif c.get("uneven") == "one":
                    w = np.full(n - 1, step)
                    w[r.integers(0, n - 1)] *= r.choice([0.5, 1.5, 2.0, 3.0])
                else:
                    w = step * np.exp(r.uniform(-1.2, 1.2, n - 1))
                g = (start + np.concatenate([[0.0], np.cumsum(w)])).astype(dt)
                if seed % 4 == 1:
                    g = g - g[seed // 4 % n]  # a node at zero
            if seed % 3 == 1:
                g[g == 0] = -0.0
                self.starts[i] = -0.0 if self.starts[i] == 0 else self.starts[i]
            self.grids.append(g)
        self.vals = make_vals(c["vals"], self.dims, dt)
        self.shape = tuple(c["shape"])
        self.obs = make_obs(c["obs"], self.grids, self.shape, dt)

    def sane(self):
        return all(np.all(np.diff(g) > 0) for g in self.grids)


def make_vals(spec, dims, dt):
    style, seed = spec
    r = np.random.default_rng(seed)
    n = math.prod(dims)
    if style == "normal":
        v = r.normal(size=n)
    elif style == "ints":
        v = r.integers(-9, 10, n).astype(float)
    elif style == "spike":
        v = np.zeros(n)
        v[r.integers(0, n)] = 1.0
    elif style == "large":
        v = r.normal(size=n) * 1e12
    elif style == "small":
        v = r.normal(size=n) * 1e-12
    elif style == "holes":
        v = np.where(r.uniform(size=n) < 0.3, r.choice([np.nan, np.inf, -np.inf, -0.0, 0.0], n), r.normal(size=n))
    elif style == "mixed":
        v = r.normal(size=n) * 10.0 ** r.integers(-6, 7, n)
    else:
        v = sum((i + 1) * (k + 1.0) for k, i in enumerate(np.indices(dims))).ravel()
    return v.astype(dt).reshape(dims)


def make_obs(spec, grids, shape, dt):
    style, seed = spec
    r = np.random.default_rng(seed)
    n = math.prod(shape)
    out = []
    for g in grids:
        cell = r.integers(0, len(g) - 1, n)
        f = r.uniform(0, 1, n)
        k = {"mixed": None, "inside": 0, "nodes": 1, "mid": 2, "outside": 3, "far": 4, "near": 5, "veryfar": 6}[style]
        kind = r.integers(0, 7, n) if k is None else np.full(n, k)
        a, b = g[cell].astype(float), g[cell + 1].astype(float)
        span = float(g[-1]) - float(g[0])
        side = r.integers(0, 2, n)
        beyond = np.where(kind == 6, 10.0 ** (8 * f), np.where(kind == 4, 3 * f, 0.3 * f)) * span
        tiny = 10.0 ** -r.uniform(1, 12, n)
        x = np.select(
            [kind == 0, kind == 1, kind == 2, kind == 5],
            [a + f * (b - a), np.where(f < 0.5, a, b), a + 0.5 * (b - a), np.where(f < 0.5, a + tiny * (b - a), b - tiny * (b - a))],
            np.where(side == 0, float(g[0]) - beyond, float(g[-1]) + beyond),
        )
        x = x.astype(dt)
        if seed % 3 == 1:
            x[x == 0] = -0.0
        out.append(x.reshape(shape))
    return out


def lay(a, style):
    """The same array in another memory layout."""
    a = np.array(a, order="C")
    if style == "f":
        return np.array(a, order="F")
    if style == "transposed":
        return np.array(a.T, order="C").T
    if style == "reversed":
        return np.array(np.flip(a), order="C")[(slice(None, None, -1),) * a.ndim + (...,)]
    if style == "strided" and a.ndim:
        big = np.full(a.shape[:-1] + (2 * a.shape[-1] + 1,), 77, a.dtype)
        v = big[..., 1::2]
        v[...] = a
        return v
    if style == "rowstrided" and a.ndim:
        big = np.full((3 * a.shape[0] + 1,) + a.shape[1:], 77, a.dtype)
        v = big[1::3]
        v[...] = a
        return v
    if style == "misaligned":
        buf = np.zeros(a.nbytes + 1, np.uint8)
        v = buf[1:].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v
    if style == "readonly":
        a.flags.writeable = False
    return a


def arrays_in(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [b for y in x for b in arrays_in(y)]
    return []


class Frozen:
    """Remembers the content of arrays; `changed()` says which one was modified."""

    def __init__(self, *xs):
        self.a = [(b, b.tobytes(), b.shape, b.strides, b.flags.writeable) for x in xs for b in arrays_in(x)]

    def changed(self):
        for i, (b, raw, sh, stt, wr) in enumerate(self.a):
            if b.tobytes() != raw or b.shape != sh or b.strides != stt or b.flags.writeable != wr:
                return i
        return None


def same(a, b):
    """equal shape and type, and equal values bit by bit (any NaN equals any NaN)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return bool(np.all((a == b) & (np.signbit(a) == np.signbit(b)) | (np.isnan(a) & np.isnan(b)))) if a.size else True

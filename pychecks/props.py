"""The Python properties C24-C29, C31 and C34 as checks over generated cases."""
import copy
import json
import math
import os
import pickle
import random
import subprocess
import sys
import threading

import numpy as np
from hypothesis import strategies as st

import interpn as pkg
from interpn import raw

import model
import modes
from gen import DT, LAYOUTS, MAXDIMS, MINPTS, REG, SEED, Built, Frozen, arrays_in, lay, make_obs, problem, same

CLS = {
    ("linear", "regular"): pkg.MultilinearRegular,
    ("linear", "rectilinear"): pkg.MultilinearRectilinear,
    ("cubic", "regular"): pkg.MulticubicRegular,
    ("cubic", "rectilinear"): pkg.MulticubicRectilinear,
    ("nearest", "regular"): pkg.NearestRegular,
    ("nearest", "rectilinear"): pkg.NearestRectilinear,
}
BITS = {"f8": 64, "f4": 32}


class Bad(Exception):
    pass


class Skip(Exception):
    pass


def raw_fn(b):
    return getattr(raw, f"interpn_{b.method}_{b.kind}_f{BITS[b.c['dtype']]}")


def raw_args(b, obs, out):
    """positional arguments of the raw binding"""
    lin = [b.lin] if b.method == "cubic" else []
    if b.kind == "regular":
        return [b.dims, b.starts, b.steps, b.vals.ravel(), *lin, obs, out]
    return [b.grids, b.vals.ravel(), *lin, obs, out]


def construct(b, dims=None, starts=None, steps=None, grids=None, vals=None):
    lin = {"linearize_extrapolation": b.lin} if b.method == "cubic" else {}
    vals = b.vals if vals is None else vals
    if b.kind == "regular":
        return CLS[b.method, b.kind].new(
            b.dims if dims is None else dims, b.starts if starts is None else starts, b.steps if steps is None else steps, vals, **lin
        )
    return CLS[b.method, b.kind].new(b.grids if grids is None else grids, vals, **lin)


def call(b, obs=None, grids=None, vals=None, **kw):
    return pkg.interpn(
        b.obs if obs is None else obs, b.grids if grids is None else grids, b.vals if vals is None else vals,
        method=b.method, linearize_extrapolation=b.lin, **kw)


def flat(b):
    return [np.ascontiguousarray(o.ravel()) for o in b.obs]


def axes_of(b):
    if b.kind == "regular":
        return [model.Axis(start=s, step=h, n=n) for s, h, n in zip(b.starts, b.steps, b.dims)]
    return [model.Axis(nodes=g) for g in b.grids]


def axes_for_interpn(b, assume):
    """interpn() gets coordinate arrays and may re-express them as start and step"""
    reg = assume or all(np.all(np.diff(g) == g[1] - g[0]) for g in b.grids)
    eps = model.EPS[b.c["dtype"]]
    return [model.Axis(nodes=g, delta=4 * eps * (len(g) + 2) * float(np.max(np.abs(g))) if reg else 0.0) for g in b.grids], reg


def compare(b, axes, res, name, ctx):
    obs = [o.ravel() for o in b.obs]
    r = np.asarray(res).ravel()
    n = 0
    some = range(r.size)
    if r.size > 40:
        # of a long batch, the ends and a sample
        ctx.label("long batch")
        some = sorted({0, 1, 255, 256, r.size // 2, r.size - 2, r.size - 1, *np.random.default_rng(r.size).integers(0, r.size, 20).tolist()} & set(range(r.size)))
    for i in some:
        m = model.judge(b.method, b.lin, axes, b.vals, [o[i] for o in obs], r[i], b.c["dtype"])
        if m == "skip":
            ctx.label("points not judged (precision)")
        elif m:
            raise Bad(f"{name}: point {i} at {[float(o[i]) for o in obs]}: {m}")
        else:
            n += 1
    return n


# ---------------------------------------------------------------- C24
@st.composite
def c24(draw, tier):
    c = draw(problem())
    if len(c["dims"]) <= 2 and draw(st.integers(0, 99)) == 3:
        # a batch beyond any 16-bit size
        c["shape"] = [draw(st.sampled_from([65535, 65536, 65537, 131073, 300001]))]
    c["lay"] = [draw(st.sampled_from(LAYOUTS)) for _ in range(3)]
    c["assume"] = draw(st.booleans())
    c["nd"] = draw(st.booleans())
    c["opt"] = draw(st.sampled_from(["none", "defaults", "gridshape"]))
    c["cast"] = draw(st.sampled_from(["same", "same", "f8", "f4", "i8", "i4", "mixed"]))
    c["tuple"] = draw(st.booleans())
    return c


def new_from_anything(c, b, ctx):
    """`new` flattens and casts: the object equals the one made from plain arrays of the values' type"""
    lg, lv = c["lay"][1], c["lay"][2]
    kinds = ["f8", "f4", "i8", "i4"]
    def cast(a, k):
        t = c["cast"] if c["cast"] != "mixed" else kinds[(k + len(b.dims)) % 4]
        if t == "same":
            return a
        with np.errstate(all="ignore"):
            r = a.astype(t)
        # a cast that loses the grid (overlapping coordinates, zero step) is not tried
        bad = not np.all(np.diff(r.astype(b.dt)) > 0) if a.size > 1 else False
        if bad or np.any(np.abs(a) > 1e9) or not np.all(np.isfinite(r)):
            return a
        return r
    vals = lay(b.vals if c["nd"] else b.vals.ravel(), lv)
    if b.kind == "regular":
        starts = cast(b.starts, 0) if b.nd == 1 else b.starts.astype({"same": b.dt, "mixed": "f8"}.get(c["cast"], c["cast"])) if np.all(np.abs(b.starts) < 1e9) else b.starts
        t = {"same": b.dt, "mixed": "f4"}.get(c["cast"], c["cast"])
        steps = b.steps.astype(t) if np.all(np.abs(b.steps) < 1e9) else b.steps
        if not np.all(steps > 0):
            steps = b.steps
        if c["opt"] == "gridshape":
            starts, steps = starts.reshape(-1, 1), steps.reshape(1, -1)
        o = construct(b, starts=lay(starts, lg), steps=lay(steps, lg), vals=vals)
        ps, ph = starts.ravel().astype(b.dt), steps.ravel().astype(b.dt)
        plain = construct(b, starts=ps, steps=ph)
        held = [(o.starts.data, ps), (o.steps.data, ph)]
        changed = starts.dtype != b.dt or steps.dtype != b.dt
    else:
        grids = [cast(g, k) for k, g in enumerate(b.grids)]
        changed = any(g.dtype != b.dt for g in grids)
        o = construct(b, grids=[lay(g, lg) for g in grids], vals=vals)
        pg = [g.ravel().astype(b.dt) for g in grids]
        plain = construct(b, grids=pg)
        held = [(x.data, g) for x, g in zip(o.grids, pg)]
    for h, want in held + [(o.vals.data, b.vals.ravel())]:
        if not same(h, want):
            raise Bad(f"new(layouts {lg}, {lv}, cast {c['cast']}) holds {h.dtype} {h.tolist()}, expected {want.dtype} {want.tolist()}")
    if not same(o.eval(flat(b)), plain.eval(flat(b))):
        raise Bad(f"new(layouts {lg}, {lv}, cast {c['cast']}) evaluates differently from the same grid given as plain arrays")
    if changed:
        ctx.label("new: grid cast to the values' type")


def c24_check(c, ctx):
    b = Built(c)
    if not b.sane():
        raise Skip
    ctx.label(f"{c['method']} {c['kind']} {c['dtype']}")
    ctx.label(f"{b.nd} dims")
    judged = 0
    # raw binding and class, on contiguous one-dimensional arrays
    obs = flat(b)
    axes = axes_of(b)
    out = np.full(obs[0].size, np.nan, b.dt)
    raw_fn(b)(*raw_args(b, obs, out))
    judged += compare(b, axes, out, raw_fn(b).__name__, ctx)
    o = construct(b)
    for name in ("eval", "eval_unchecked"):
        r = getattr(o, name)(obs)
        if r.shape != obs[0].shape or r.dtype != b.dt:
            raise Bad(f"{type(o).__name__}.{name} returned {r.dtype} {r.shape}")
        compare(b, axes, r, f"{type(o).__name__}.{name}", ctx)
    if b.kind == "regular":
        want = (b.dims, b.starts, b.steps)
        if list(o.dims) != want[0] or not same(o.starts.data, want[1]) or not same(o.steps.data, want[2]):
            raise Bad("the object does not hold the given grid")
    elif list(o.dims()) != b.dims or not all(same(x.data, g) for x, g in zip(o.grids, b.grids)):
        raise Bad("the object does not hold the given grids")
    if o.ndims() != b.nd or not same(o.vals.data, b.vals.ravel()):
        raise Bad("the object does not hold the given values")
    new_from_anything(c, b, ctx)
    # interpn() on any layout
    lo, lg, lv = c["lay"]
    vals = b.vals if c["nd"] else b.vals.ravel()
    grids = [g.reshape(-1, 1) for g in b.grids] if c["opt"] == "gridshape" else b.grids
    a_obs, a_grids, a_vals = [lay(x, lo) for x in b.obs], [lay(x, lg) for x in grids], lay(vals, lv)
    if c["tuple"]:
        a_obs, a_grids = tuple(a_obs), tuple(a_grids)
    assume = c["assume"] and b.kind == "regular"
    axes, reg = axes_for_interpn(b, assume)
    kw = dict(method=b.method, linearize_extrapolation=b.lin)
    if b.method == "linear" and c["opt"] == "defaults":
        kw.pop("method")
    if b.lin and c["opt"] == "defaults":
        kw.pop("linearize_extrapolation")
    if assume or c["opt"] != "defaults":
        kw["assume_regular"] = assume
    r = pkg.interpn(a_obs, a_grids, a_vals, **kw)
    if r.shape != b.shape or r.dtype != b.dt:
        raise Bad(f"interpn returned {r.dtype} {r.shape} for observations {b.dt.__name__} {b.shape}")
    judged += compare(b, axes, r, f"interpn(layouts {c['lay']})", ctx)
    ctx.label("interpn used start/step" if reg else "interpn used coordinates")
    ctx.label(f"obs {lo}" + (" n-d" if len(b.shape) != 1 else ""))
    return judged > 0 and np.unique(b.vals).size > 1


# ---------------------------------------------------------------- C25
OUTLAY = ["c", "c", "f", "strided", "reversed", "transposed", "misaligned", "rowstrided"]


@st.composite
def c25(draw, tier):
    c = draw(problem(maxdims=5))
    c["outs"] = [[draw(st.sampled_from(OUTLAY)), draw(st.sampled_from(["nan", "zero", "one", "inf", "junk"]))] for _ in range(2)]
    c["again"] = draw(st.lists(SEED, min_size=0, max_size=3))
    c["bounds"] = draw(st.booleans())
    return c


def guarded_out(shape, dt, layout, fill):
    """an output array that is a view of a larger buffer, and that buffer's other bytes"""
    n = math.prod(shape)
    item = np.dtype(dt).itemsize
    pad = 64
    room = (3 * n + 8) * item
    buf = np.frombuffer(bytearray(b"\xa5" * (room + 2 * pad + 1)), np.uint8)
    mid = buf[pad + (1 if layout == "misaligned" else 0):]
    whole = mid[: room // item * item].view(dt)
    if layout in ("c", "misaligned"):
        v = whole[:n].reshape(shape)
    elif layout == "f":
        v = whole[:n].reshape(shape[::-1]).T
    elif layout == "transposed":
        p = list(range(len(shape)))[::-1]
        v = whole[:n].reshape([shape[i] for i in p]).transpose(p)
    elif layout == "reversed":
        v = whole[:n].reshape(shape)[(slice(None, None, -1),) * len(shape) + (...,)]
    elif layout == "strided":
        v = whole[1 : 1 + 2 * n : 2].reshape(shape) if len(shape) == 1 else whole[: 2 * n].reshape(shape + (2,))[..., 1]
    else:
        v = whole[: 3 * n].reshape((3,) + shape)[1, ...] if len(shape) != 1 else whole[1 : 1 + 3 * n : 3]
    assert v.shape == tuple(shape) and (n == 0 or np.may_share_memory(v, buf))
    v[...] = {"nan": np.nan, "zero": 0, "one": 1, "inf": np.inf, "junk": -1.25e30}[fill]
    mask = np.ones(buf.size, bool)
    if n:
        off = np.full(shape, v.__array_interface__["data"][0] - buf.__array_interface__["data"][0])
        for ax, s in enumerate(v.strides):
            off = off + (np.arange(shape[ax]) * s).reshape([-1 if k == ax else 1 for k in range(len(shape))])
        mask[(off.ravel()[:, None] + np.arange(item)).ravel()] = False
    return v, buf, mask


def plain(v):
    return v.flags.c_contiguous and v.flags.aligned


def c25_check(c, ctx):
    b = Built(c)
    if not b.sane():
        raise Skip
    seeds = [None] + c["again"]
    (l1, f1), (l2, f2) = c["outs"]
    v, buf, mask = guarded_out(b.shape, b.dt, l1, f1)
    w, wbuf, wmask = guarded_out((v.size,), b.dt, l2, f2)
    guard, wguard = buf[mask].tobytes(), wbuf[wmask].tobytes()
    o = construct(b)
    ctx.label(f"interpn out {l1}" + (" n-d" if len(b.shape) != 1 else ""))
    ctx.label(f"{v.size if v.size < 2 else 'several'} elements")
    for k, s in enumerate(seeds):
        if s is not None:
            b.obs = make_obs(["mixed", s], b.grids, b.shape, b.dt)
        kw = {}
        if c["bounds"]:
            b.obs = [np.clip(x, g[0], g[-1]) for x, g in zip(b.obs, b.grids)]
            kw = {"check_bounds": True, "bounds_atol": 1e-3 * float(np.max(np.abs(np.concatenate(b.grids)))) + 1e-8}
        want = call(b)
        how = f"interpn(out={l1} array {b.shape}, call {k})"
        try:
            r = call(b, out=v, **kw)
        except Exception as e:
            if plain(v):
                raise Bad(f"{how}: {type(e).__name__}: {e}")
            ctx.label("refused non-contiguous output")
        else:
            if not same(v, want):
                raise Bad(f"{how} left {v.tolist()} in the output, expected {want.tolist()}")
            if not same(r, want):
                raise Bad(f"{how} returned {r.tolist()}, expected {want.tolist()}")
        if buf[mask].tobytes() != guard:
            raise Bad(f"{how} wrote outside the output array")
        obs = flat(b)
        want = o.eval(obs)
        for name in ("eval", "eval_unchecked", raw_fn(b).__name__):
            how = f"{name}(out={l2} array of {w.size}, call {k})"
            w[...] = np.nan if k % 2 else 7.0
            try:
                r = getattr(o, name)(obs, w) if name.startswith("eval") else raw_fn(b)(*raw_args(b, obs, w))
            except Exception as e:
                if plain(w):
                    raise Bad(f"{how}: {type(e).__name__}: {e}")
            else:
                if not same(w, want):
                    raise Bad(f"{how} left {w.tolist()} in the output, expected {want.tolist()}")
                if name.startswith("eval") and not same(r, want):
                    raise Bad(f"{how} returned {r.tolist()}, expected {want.tolist()}")
            if wbuf[wmask].tobytes() != wguard:
                raise Bad(f"{how} wrote outside the output array")
    return v.size > 0 and bool(np.any(want != 0))


# ---------------------------------------------------------------- C26
@st.composite
def c26(draw, tier):
    c = draw(problem(empty=False))
    c["obs"][0] = draw(st.sampled_from(["inside", "nodes", "inside", "mixed"]))
    # displaced coordinates: axis, point, side, distance beyond the edge relative to the tolerance
    c["out"] = draw(st.lists(st.tuples(st.integers(0, 7), st.integers(0, 20), st.booleans(), st.sampled_from([0.0, 0.5, 0.9, 1.1, 2.0, 30.0, 1e6])), max_size=3))
    c["atol"] = draw(st.sampled_from([None, 0.0, 1e-8, 1e-3, 0.05, 1.0]))
    c["assume"] = draw(st.booleans())
    c["lay"] = draw(st.sampled_from(LAYOUTS))
    return c


def c26_check(c, ctx):
    b = Built(c)
    if not b.sane():
        raise Skip
    eps = model.EPS[c["dtype"]]
    spans = [float(g[-1]) - float(g[0]) for g in b.grids]
    atol = 1e-8 if c["atol"] is None else c["atol"] * (min(spans) if c["atol"] > 1e-8 else 1.0)
    obs = [np.array(o).reshape(-1) for o in b.obs]
    for ax, i, hi, rel in c["out"]:
        ax, i = ax % b.nd, i % obs[0].size
        d = (atol if atol > 0 else spans[ax] * 0.01) * rel
        obs[ax][i] = float(b.grids[ax][-1]) + d if hi else float(b.grids[ax][0]) - d
    b.obs = [o.reshape(b.shape) for o in obs]
    assume = c["assume"] and b.kind == "regular"
    _, reg = axes_for_interpn(b, assume)

    def verdicts(los, his, band):
        """per axis: True out of bounds, False inside, None too close to tell"""
        out = []
        for d in range(b.nd):
            lo, hi = los[d], his[d]
            v, sure = 0.0, False
            x = np.array(b.obs[d], np.float64).ravel()
            beyond = np.maximum(lo - x, x - hi)
            tol = band[d] + 8 * eps * (np.abs(beyond) + atol)
            if np.any(beyond > atol + tol):
                out.append(True)
            elif np.all((beyond < atol - tol) | (beyond <= 0 if band[d] == 0 else beyond < -tol)):
                out.append(False)
            else:
                out.append(None)
        return out

    # the rectilinear check compares x - lo and x - hi with the tolerance; on a regular grid the
    # upper edge is start + step * (n - 1), which rounds
    def band_reg(scale):
        return [8 * eps * scale * (abs(float(g[0])) + abs(float(g[-1])) + abs(float(h) * n)) for g, h, n in zip(b.grids, b.steps if b.kind == "regular" else np.zeros(b.nd), b.dims)]

    # interpn()
    los, his = [float(g[0]) for g in b.grids], [float(g[-1]) for g in b.grids]
    ver = verdicts(los, his, band_reg(max(b.dims)) if reg else [0.0] * b.nd)
    kw = {} if c["atol"] is None else {"bounds_atol": atol}
    if assume:
        kw["assume_regular"] = True
    args = dict(obs=[lay(o, c["lay"]) for o in b.obs])
    plainr = call(b, **args, **({"assume_regular": True} if assume else {}))
    try:
        r = call(b, **args, check_bounds=True, **kw)
        raised = False
    except ValueError:
        raised = True
    except Exception as e:
        raise Bad(f"interpn(check_bounds=True) raised {type(e).__name__}: {e}")
    if True in ver and not raised:
        raise Bad(f"interpn(check_bounds=True) did not raise although axis {ver.index(True)} is out of bounds (atol {atol!r})")
    if raised and all(v is False for v in ver):
        raise Bad(f"interpn(check_bounds=True) raised although every point is inside (atol {atol!r})")
    if not raised and not same(r, plainr):
        raise Bad("interpn(check_bounds=True) returned another result than without the check")
    if not same(call(b, **args, check_bounds=False, **kw), plainr):
        raise Bad("interpn(check_bounds=False) returned another result than the default")
    # classes and raw functions
    if b.kind == "regular":
        his = [float(s) + float(h) * (n - 1) for s, h, n in zip(b.starts, b.steps, b.dims)]
        los = [float(s) for s in b.starts]
        cver = verdicts(los, his, band_reg(1))
    else:
        cver = verdicts(los, his, [0.0] * b.nd)
    o = construct(b)
    got = [("check_bounds", o.check_bounds([lay(x, c["lay"]) for x in b.obs], atol))]
    flags = np.array([bool(k % 2) for k in range(b.nd)])
    name = f"check_bounds_{b.kind}_f{BITS[c['dtype']]}"
    getattr(raw, name)(*([b.dims, b.starts, b.steps] if b.kind == "regular" else [b.grids]), flat(b), atol, flags)
    got.append((name, flags))
    for name, f in got:
        if f.shape != (b.nd,) or f.dtype != bool:
            raise Bad(f"{name} returned {f.dtype} {f.shape}")
        for d in range(b.nd):
            if cver[d] is not None and bool(f[d]) != cver[d]:
                raise Bad(f"{name}: axis {d} reported {bool(f[d])}, expected {cver[d]} (atol {atol!r})")
    ctx.label("out of bounds" if True in ver else "inside" if all(v is False for v in ver) else "too close to tell")
    ctx.label(f"{b.nd} dims" if b.nd < 3 else "3+ dims")
    ctx.label("start/step" if reg else "coordinates")
    return bool(c["out"]) and None not in ver


# ---------------------------------------------------------------- C27
@st.composite
def c27(draw, tier):
    c = draw(problem(maxdims=4, scalar_shapes=False))
    c["vbits"] = draw(st.sampled_from(["normal", "bits", "subnormal", "huge", "specials", "nonfinite"]))
    c["gbits"] = draw(st.sampled_from(["plain", "bits", "tiny"]))
    c["bseed"] = draw(SEED)
    c["trips"] = draw(st.lists(st.sampled_from(list(ROUTES) + ["json"] * 8), min_size=1, max_size=4))
    return c


def reload(o, text):
    return type(o).model_validate_json(text)


# ways of storing or copying an object
ROUTES = {
    "json": lambda o: reload(o, o.model_dump_json()),
    "json, indented": lambda o: reload(o, o.model_dump_json(indent=2)),
    "json, bytes": lambda o: reload(o, o.model_dump_json().encode()),
    "json, rewritten by another program": lambda o: reload(o, json.dumps(json.loads(o.model_dump_json()), sort_keys=True, indent=1)),
    "dict": lambda o: type(o).model_validate(o.model_dump()),
    "dict of json types": lambda o: type(o).model_validate(o.model_dump(mode="json")),
    "keyword arguments": lambda o: type(o)(**o.model_dump()),
    "pickle": lambda o: pickle.loads(pickle.dumps(o)),
    "pickle, oldest usable protocol": lambda o: pickle.loads(pickle.dumps(o, protocol=2)),
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
    "model_copy": lambda o: o.model_copy(),
    "deep model_copy": lambda o: o.model_copy(deep=True),
}


def bit_values(kind, n, dt, r):
    u = np.uint64 if dt is np.float64 else np.uint32
    info = np.iinfo(u)
    f = np.finfo(dt)
    if kind == "bits":
        v = r.integers(0, info.max, n, dtype=u, endpoint=True).view(dt)
        return np.where(np.isfinite(v), v, dt(0.5))
    if kind == "subnormal":
        mant = r.integers(0, 2**52 if dt is np.float64 else 2**23, n, dtype=u)
        return mant.view(dt) * np.where(r.integers(0, 2, n), dt(1), dt(-1))
    if kind == "huge":
        return (f.max * r.uniform(-1, 1, n)).astype(dt)
    sp = [0.0, -0.0, f.tiny, -f.tiny, f.max, -f.max, f.eps, 1 + f.eps, 1 - f.epsneg, f.smallest_subnormal, -f.smallest_subnormal, 0.1, 1 / 3, 1e22, 5e-324 if dt is np.float64 else 1e-45, 123456789.123456789]
    if kind == "nonfinite":
        sp += [np.inf, -np.inf, np.nan] * 3
    return np.array(sp, np.float64).astype(dt)[r.integers(0, len(sp), n)]


def arrays_of(o):
    if hasattr(o, "grids"):
        return [g.data for g in o.grids] + [o.vals.data]
    return [o.starts.data, o.steps.data, o.vals.data]


def eval_or_error(o, obs):
    """the result, or the text of the exception (extreme grids make locations unrepresentable)"""
    try:
        return o.eval(obs)
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def agree(x, y):
    return x == y if isinstance(x, str) or isinstance(y, str) else same(x, y)


def c27_check(c, ctx):
    b = Built(c)
    if not b.sane():
        raise Skip
    r = np.random.default_rng(c["bseed"])
    if c["vbits"] != "normal":
        with np.errstate(all="ignore"):
            b.vals = bit_values(c["vbits"], b.vals.size, b.dt, r).astype(b.dt).reshape(b.dims)
    if c["gbits"] != "plain":
        with np.errstate(all="ignore"):
            def pool(n):
                v = bit_values("bits" if c["gbits"] == "bits" else "subnormal", 4 * n + 8, b.dt, r)
                return np.unique(v)
            if b.kind == "regular":
                b.starts = bit_values("bits" if c["gbits"] == "bits" else "specials", b.nd, b.dt, r).astype(b.dt)
                s = np.abs(bit_values("bits" if c["gbits"] == "bits" else "subnormal", b.nd, b.dt, r)).astype(b.dt)
                b.steps = np.where(s > 0, s, b.dt(1))
            else:
                b.grids = [np.sort(r.choice(pool(n), n, replace=False)) for n in b.dims]
                if not b.sane():
                    raise Skip
    o = construct(b)
    ctx.label(f"{type(o).__name__} {c['dtype']}")
    ctx.label(f"values {c['vbits']}, grid {c['gbits']}")
    before = arrays_of(o)
    obs = flat(b)
    want = ([b.starts, b.steps] if b.kind == "regular" else b.grids) + [b.vals.ravel()]
    if len(before) != len(want) or not all(same(x, y) for x, y in zip(before, want)):
        raise Bad("the new object does not hold the given arrays")
    first = eval_or_error(o, obs)
    text, cur = o.model_dump_json(), o
    for k, route in enumerate(c["trips"]):
        ctx.label(route)
        k = f"{k} ({route})"
        cur = ROUTES[route](cur)
        if type(cur) is not type(o):
            raise Bad(f"round trip {k} gives a {type(cur).__name__}")
        if cur.model_dump_json() != text:
            raise Bad(f"dump after round trip {k} differs from the first one")
        for name, x, y in zip("abcdefghijkl", before, arrays_of(cur)):
            if not same(x, y):
                raise Bad(f"array {name} changed from {x.dtype} {x.tolist()} to {y.dtype} {y.tolist()} in round trip {k}")
        if len(arrays_of(cur)) != len(before) or cur.ndims() != o.ndims():
            raise Bad("number of dimensions changed")
        if b.kind == "regular" and list(cur.dims) != list(o.dims):
            raise Bad(f"dims changed from {o.dims} to {cur.dims}")
        if b.method == "cubic" and cur.linearize_extrapolation is not o.linearize_extrapolation:
            raise Bad("linearize_extrapolation changed")
        again = eval_or_error(cur, obs)
        if not agree(again, first):
            raise Bad(f"evaluation after round trip {k} gives {again} instead of {first}")
    if o.model_dump_json() != text or not agree(eval_or_error(o, obs), first):
        raise Bad("the original object changed")
    return np.unique(b.vals).size > 1


# ---------------------------------------------------------------- C28
# Each malformation takes the argument table and spoils one thing.  Arguments: obs, grids (or
# dims/starts/steps), vals, out, method.
STRUCT = ["obs_fewer", "obs_more", "obs_one_longer", "obs_one_shorter", "out_longer", "out_shorter", "vals_longer", "vals_shorter", "vals_empty",
          "no_dims", "many_dims", "short_axis", "empty_axis", "decreasing", "equal_coords", "nan_coord", "nan_step", "zero_step", "neg_step", "starts_longer", "steps_shorter", "dims_longer", "huge_dims", "neg_dims"]
TYPES = ["obs_dtype", "vals_dtype", "grid_dtype", "out_dtype", "obs_none", "vals_list", "obs_strided", "vals_strided", "obs_misaligned", "vals_misaligned", "out_misaligned", "out_strided", "out_readonly", "out_is_obs", "out_is_vals", "obs_2d", "out_2d", "method", "obs_not_list", "int_dims_float", "mixed_obs", "extra_field"]


WHERE = {  # malformation -> entries where it is a malformation that must be refused
    "obs_fewer": "interpn raw eval eval_unchecked check_bounds raw_check_bounds",
    "obs_more": "interpn raw eval eval_unchecked check_bounds raw_check_bounds",
    "obs_one_longer": "interpn raw eval eval_unchecked",
    "obs_one_shorter": "interpn raw eval eval_unchecked",
    "out_longer": "interpn raw eval eval_unchecked raw_check_bounds",
    "out_shorter": "interpn raw eval eval_unchecked raw_check_bounds",
    "vals_longer": "interpn raw new fields",
    "vals_shorter": "interpn raw new fields",
    "vals_empty": "interpn raw new fields",
    "no_dims": "interpn raw new fields",
    "many_dims": "interpn raw new fields raw_check_bounds",
    "short_axis": "interpn raw use",
    "empty_axis": "interpn raw use raw_check_bounds",
    "decreasing": "interpn raw new fields",
    "equal_coords": "interpn raw new fields",
    "nan_coord": "interpn raw new fields",
    "nan_step": "raw new fields",
    "zero_step": "raw new fields",
    "neg_step": "raw new fields",
    "starts_longer": "raw new fields raw_check_bounds",
    "steps_shorter": "raw new fields raw_check_bounds",
    "dims_longer": "raw new fields raw_check_bounds",
    "huge_dims": "raw new fields",
    "neg_dims": "raw use raw_check_bounds",
    "obs_dtype": "interpn raw eval eval_unchecked check_bounds raw_check_bounds",
    "vals_dtype": "raw interpn",
    "grid_dtype": "raw raw_check_bounds",
    "out_dtype": "interpn raw eval eval_unchecked raw_check_bounds",
    "obs_none": "interpn raw eval eval_unchecked check_bounds raw_check_bounds",
    "vals_list": "raw interpn new",
    "obs_strided": "raw eval eval_unchecked raw_check_bounds",
    "vals_strided": "raw",
    "obs_misaligned": "raw eval eval_unchecked raw_check_bounds",
    "vals_misaligned": "raw",
    "out_misaligned": "raw eval eval_unchecked",
    "out_strided": "raw eval eval_unchecked raw_check_bounds",
    "out_readonly": "interpn raw eval eval_unchecked raw_check_bounds",
    "out_is_obs": "raw eval eval_unchecked",
    "out_is_vals": "raw",
    "obs_2d": "raw eval eval_unchecked raw_check_bounds",
    "out_2d": "raw eval eval_unchecked raw_check_bounds",
    "method": "interpn",
    "obs_not_list": "interpn raw eval eval_unchecked check_bounds raw_check_bounds",
    "int_dims_float": "raw new fields raw_check_bounds",
    "mixed_obs": "interpn raw eval eval_unchecked check_bounds raw_check_bounds",
    "extra_field": "fields",
}
WHERE = {k: set(v.split()) for k, v in WHERE.items()}
REGULAR_ONLY = {"nan_step", "zero_step", "neg_step", "starts_longer", "steps_shorter", "dims_longer", "huge_dims", "neg_dims", "int_dims_float"}
RECT_ONLY = {"decreasing", "equal_coords", "nan_coord", "empty_axis"}


def fitting(names, entry, kind):
    """malformations that apply to this entry point and kind of grid"""
    out = []
    for n in names:
        if entry not in WHERE[n] and not (entry in ("new", "fields") and "use" in WHERE[n]):
            continue
        if n in REGULAR_ONLY and (kind != "regular" or entry == "interpn"):
            continue
        if n in RECT_ONLY and kind == "regular" and entry != "interpn" and n != "empty_axis":
            continue
        out.append(n)
    return out


@st.composite
def c28(draw, tier):
    c = draw(problem(maxdims=4, scalar_shapes=False, empty=False))
    c["entry"] = e = draw(st.sampled_from(["interpn", "raw", "eval", "eval_unchecked", "new", "check_bounds", "raw_check_bounds", "fields"]))
    s, t = fitting(STRUCT, e, c["kind"]), fitting(TYPES, e, c["kind"])
    c["bad"] = [draw(st.sampled_from(s + t))]
    if s and t and draw(st.integers(0, 3)) == 0:
        c["bad"] = [draw(st.sampled_from(s)), draw(st.sampled_from(t))]
    c["k"] = draw(st.integers(0, 5))
    c["alt"] = draw(st.sampled_from(["i8", "f4", "f8", "c16", "O", "U4", ">f8", "f2", "bool", "f16"]))
    c["with_out"] = draw(st.integers(0, 3)) > 0
    return c


def spoil(name, a, b, c):
    """Apply a malformation to the argument table; False if it is none here."""
    k, alt = c["k"], c["alt"]
    nd = b.nd
    ax = k % nd
    entry = c["entry"]
    one = lambda x, v: [v if i == ax else y for i, y in enumerate(x)]
    other = {"f8": "f4", "f4": "f8"}[c["dtype"]]
    alt = other if alt == c["dtype"] else alt
    if name == "obs_fewer":
        a["obs"] = a["obs"][:-1]
    elif name == "obs_more":
        a["obs"] = a["obs"] + [a["obs"][0].copy()] * (1 + 4 * (k % 3))
    elif name in ("obs_one_longer", "obs_one_shorter"):
        o = a["obs"][ax]
        if nd == 1 and not a["out_given"]:
            return False
        a["obs"] = one(a["obs"], np.append(o, o[:1]) if name.endswith("longer") else o[:-1].copy())
    elif name in ("out_longer", "out_shorter"):
        if not a["out_given"]:
            return False
        a["out"] = np.zeros(a["out"].size + (1 + k if name == "out_longer" else -1), a["out"].dtype)
    elif name in ("vals_longer", "vals_shorter", "vals_empty"):
        n = a["vals"].size
        m = {"vals_longer": n + 1 + k, "vals_shorter": n - 1, "vals_empty": 0}[name]
        a["vals"] = np.resize(a["vals"].ravel(), m) if m else np.zeros(0, b.dt)
    elif name == "no_dims":
        a.update(obs=[], grids=[], dims=[], starts=np.zeros(0, b.dt), steps=np.zeros(0, b.dt), vals=np.zeros(k % 2, b.dt))
    elif name == "many_dims":
        n = MAXDIMS[b.method] + 1 + (k % 4)
        if entry == "raw_check_bounds":
            n = 9 + k % 4  # bounds are checked in up to 8 dimensions, whatever the method
        lo = MINPTS[b.method] if n * math.log(MINPTS[b.method]) < 13 else 2
        a.update(obs=[np.zeros(2, b.dt)] * n, grids=[np.arange(lo, dtype=b.dt)] * n, dims=[lo] * n, starts=np.zeros(n, b.dt), steps=np.ones(n, b.dt), vals=np.zeros(lo**n, b.dt), out=np.zeros(2, b.dt))
        if entry == "raw_check_bounds":
            a["out"] = np.zeros(n, bool)
    elif name in ("short_axis", "empty_axis"):
        m = 0 if name == "empty_axis" else k % (MINPTS[b.method] - 1) + 1
        a["dims"] = one(a["dims"], m)
        a["grids"] = one(a["grids"], np.arange(m, dtype=b.dt))
        a["vals"] = np.zeros(math.prod(a["dims"]), b.dt)
    elif name in ("decreasing", "equal_coords", "nan_coord"):
        g = a["grids"][ax].copy()
        # the classes check every coordinate, the functions only the first two
        i = k % (len(g) - 1) if entry in ("new", "fields") else 0
        if name == "decreasing":
            g[i], g[i + 1] = g[i + 1], g[i]
        elif name == "equal_coords":
            g[i + 1] = g[i]
        else:
            g[i] = np.nan
        a["grids"] = one(a["grids"], g)
    elif name in ("nan_step", "zero_step", "neg_step"):
        s = a["steps"].copy()
        s[ax] = {"nan_step": np.nan, "zero_step": 0.0, "neg_step": -s[ax]}[name]
        a["steps"] = s
    elif name == "starts_longer":
        a["starts"] = np.append(a["starts"], a["starts"][0])
    elif name == "steps_shorter":
        a["steps"] = a["steps"][:-1].copy()
    elif name == "dims_longer":
        a["dims"] = a["dims"] + [a["dims"][0]]
    elif name == "huge_dims":
        a["dims"] = one(a["dims"], [2**63 + 1, 2**62, 2**40, 2**64 - 1][k % 4])
    elif name == "neg_dims":
        a["dims"] = [-d for d in a["dims"]] if nd % 2 == 0 else one(a["dims"], -a["dims"][ax])
    elif name in ("obs_dtype", "mixed_obs"):
        if name == "mixed_obs":
            alt = other
            if nd == 1:
                return False
        if len(a["obs"]) <= ax:
            return False
        with np.errstate(all="ignore"):
            a["obs"] = one(a["obs"], np.zeros(a["obs"][ax].size, alt))
    elif name == "vals_dtype":
        if entry == "interpn" and alt in ("f4", "f8"):
            # then the observations are of the wrong type
            pass
        a["vals"] = np.zeros(a["vals"].shape, alt)
    elif name == "grid_dtype":
        if b.kind == "regular":
            a["starts"] = np.zeros(a["starts"].shape, alt)
        elif a["grids"]:
            a["grids"] = one(a["grids"], np.arange(a["grids"][ax % len(a["grids"])].size).astype(alt)) if alt not in ("O", "U4", "bool") else one(a["grids"], None)
        else:
            return False
    elif name == "out_dtype":
        if not a["out_given"]:
            return False
        if alt == "bool" and entry == "raw_check_bounds":
            alt = "i1"
        a["out"] = np.zeros(a["out"].size, alt)
    elif name == "obs_none":
        if len(a["obs"]) <= ax:
            return False
        a["obs"] = one(a["obs"], [None, 3.5, "x", [0.5]][k % 4])
    elif name == "vals_list":
        a["vals"] = a["vals"].ravel().tolist()
    elif name in ("obs_strided", "obs_misaligned"):
        if len(a["obs"]) <= ax or not isinstance(a["obs"][ax], np.ndarray) or (name == "obs_strided" and a["obs"][ax].size < 2):
            return False
        a["obs"] = one(a["obs"], lay(a["obs"][ax], name[4:]))
    elif name in ("vals_strided", "vals_misaligned"):
        if a["vals"].size < 2:
            return False
        a["vals"] = lay(a["vals"].ravel(), name[5:])
    elif name in ("out_misaligned", "out_strided"):
        if not a["out_given"] or a["out"].size < 2:
            return False
        a["out"] = lay(a["out"], name[4:])
    elif name == "out_readonly":
        if not a["out_given"] or (a["out"].size == 0):
            return False
        a["out"] = a["out"].copy()
        a["out"].flags.writeable = False
    elif name == "out_is_obs":
        if not a["out_given"] or not len(a["obs"]) or any(not isinstance(x, np.ndarray) for x in a["obs"]):
            return False
        a["out"] = a["obs"][ax % len(a["obs"])]
    elif name == "out_is_vals":
        v = a["vals"].ravel()
        n = a["out"].size
        if v.size < n:
            return False
        a["vals"] = v
        a["out"] = v[:n]
    elif name == "obs_2d":
        if len(a["obs"]) <= ax:
            return False
        a["obs"] = one(a["obs"], a["obs"][ax].reshape(1, -1))
    elif name == "out_2d":
        if not a["out_given"]:
            return False
        a["out"] = a["out"].reshape(1, -1)
    elif name == "method":
        a["method"] = ["quadratic", "", "Linear", None, 3, "nearest "][k]
    elif name == "obs_not_list":
        a["obs"] = [None, 3, "obs", {}, object()][k % 5] if entry not in ("interpn",) else [None, 3, object()][k % 3]
        if entry == "raw_check_bounds" and a["obs"] == {}:
            a["obs"] = None
    elif name == "int_dims_float":
        a["dims"] = one(a["dims"], [1.5, "a", None][k % 3])
    elif name == "extra_field":
        a["extra"] = {["foo", "val", "Vals", "dimension", "out", "obs"][k]: 1}
    return True


def c28_check(c, ctx):
    b = Built(c)
    if not b.sane():
        raise Skip
    entry = c["entry"]
    good_obs = flat(b)
    o = construct(b)
    before = o.eval(good_obs)
    a = dict(obs=flat(b), grids=[g.copy() for g in b.grids], dims=list(b.dims), starts=b.starts.copy(), steps=b.steps.copy(), vals=b.vals.ravel().copy(),
             out=np.zeros(good_obs[0].size, b.dt), out_given=c["with_out"] or entry in ("raw", "raw_check_bounds"), method=b.method, extra={})
    if entry == "raw_check_bounds":
        a["out"] = np.zeros(b.nd, bool)
    applied = []
    for name in c["bad"]:
        if not fitting([name], entry, b.kind):
            continue
        try:
            if spoil(name, a, b, c):
                applied.append(name)
        except (AttributeError, TypeError, IndexError):
            continue  # the first malformation left nothing to spoil
    if not applied:
        raise Skip
    lin = {"linearize_extrapolation": b.lin} if b.method == "cubic" else {}
    shared = Frozen([o] and arrays_of(o))
    out_arg = a["out"] if a["out_given"] else None

    def act():
        if entry == "interpn":
            return pkg.interpn(a["obs"], a["grids"], a["vals"], method=a["method"], linearize_extrapolation=b.lin, out=out_arg)
        if entry == "raw":
            l = [b.lin] if b.method == "cubic" else []
            head = [a["dims"], a["starts"], a["steps"], a["vals"]] if b.kind == "regular" else [a["grids"], a["vals"]]
            return raw_fn(b)(*head, *l, a["obs"], a["out"])
        if entry in ("eval", "eval_unchecked"):
            return getattr(o, entry)(a["obs"], out_arg)
        if entry == "check_bounds":
            return o.check_bounds(a["obs"], 0.5)
        if entry == "raw_check_bounds":
            head = [a["dims"], a["starts"], a["steps"]] if b.kind == "regular" else [a["grids"]]
            return getattr(raw, f"check_bounds_{b.kind}_f{BITS[c['dtype']]}")(*head, a["obs"], 0.5, a["out"])
        if entry == "new":
            q = CLS[b.method, b.kind].new(a["dims"], a["starts"], a["steps"], a["vals"], **lin) if b.kind == "regular" else CLS[b.method, b.kind].new(a["grids"], a["vals"], **lin)
        else:
            arr = pkg.multilinear_regular.ArrayF64 if c["dtype"] == "f8" else pkg.multilinear_regular.ArrayF32
            f = dict(vals=arr(data=a["vals"]), **lin, **a["extra"])
            f |= dict(dims=a["dims"], starts=arr(data=a["starts"]), steps=arr(data=a["steps"])) if b.kind == "regular" else dict(grids=[arr(data=g) for g in a["grids"]])
            q = CLS[b.method, b.kind](**f)
        if any("use" in WHERE[n] for n in applied):
            return q.eval(a["obs"])
        return q

    try:
        r = act()
    except Exception as e:
        ctx.label(f"{entry}: {type(e).__name__}")
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        raise Bad(f"{entry} with {applied}: {type(e).__name__} (not an Exception): {e}")
    else:
        raise Bad(f"{entry} with {applied} returned {r!r:.300} instead of raising")
    if shared.changed() is not None:
        raise Bad(f"{entry} with {applied} modified the interpolator")
    after = o.eval(good_obs)
    if not same(before, after):
        raise Bad(f"after {entry} with {applied} a valid call gives another result")
    if not same(construct(b).eval(good_obs), before):
        raise Bad(f"after {entry} with {applied} a new object gives another result")
    ctx.label("malformation " + "+".join(applied))
    return True


# ---------------------------------------------------------------- C29
OPS = ["eval", "eval", "eval_unchecked", "eval_out", "bounds", "dump", "reload", "new", "twin", "assign", "interpn", "interpn", "laid", "raw", "bad", "repr", "burst", "rewrite", "rewrite", "work", "work", "work"]


class Work:
    """A problem kept in arrays that the caller rewrites in place: other values, and other coordinates between the same ends."""

    def __init__(self, b):
        self.b = b
        self.grids, self.vals, self.starts, self.steps = [g.copy() for g in b.grids], b.vals.copy(), b.starts.copy(), b.steps.copy()

    def set(self, v):
        """v % 2: the interior nodes moved; v // 2: the values as they were, reversed, or halved"""
        b = self.b
        self.starts[...] = b.starts - (v % 2) * b.steps
        self.steps[...] = b.steps * (1.0 + 0.5 * (v % 2))
        for g, first in zip(self.grids, b.grids):
            g[...] = first
            if v % 2:
                moved = first.copy()
                moved[1:-1] += b.dt(0.375) * (first[2:] - first[1:-1])
                if np.all(np.diff(moved) > 0):
                    g[...] = moved
        self.vals[...] = (b.vals, b.vals[..., ::-1], b.vals / 2)[v // 2]

    def arrays(self, fresh):
        c = (lambda x: x.copy()) if fresh else (lambda x: x)
        q = copy.copy(self.b)
        q.grids, q.vals, q.starts, q.steps = [c(g) for g in self.grids], c(self.vals), c(self.starts), c(self.steps)
        return q


@st.composite
def c29(draw, tier):
    n = draw(st.integers(1, 3))
    c = {"objs": [draw(problem(maxdims=4, scalar_shapes=False)) for _ in range(n)]}
    if draw(st.booleans()):
        # a second object of the same shape and type on another grid
        q = copy.deepcopy(c["objs"][0])
        q["axes"] = [[draw(st.sampled_from(REG)), draw(SEED)] for _ in q["axes"]]
        q["vals"][1] = draw(SEED)
        c["objs"][1:] = [q] + c["objs"][2:]
    for p in c["objs"]:
        if draw(st.integers(0, 4)) == 0:
            p["vals"][0] = "holes"
    length = draw(st.integers(2, 40 if tier == "thorough" else 24))
    # operation, object, observation set, small parameter
    c["ops"] = [[draw(st.sampled_from(OPS)), draw(st.integers(0, 5)), draw(st.integers(0, 2)), draw(st.integers(0, 5))] for _ in range(length)]
    return c


def c29_check(c, ctx):
    built = [Built(p) for p in c["objs"]]
    if not all(b.sane() for b in built):
        raise Skip
    live = [(construct(b), i) for i, b in enumerate(built)]
    sets = []
    for b in built:
        s = [flat(b)]
        for k in (1, 2):
            s.append([x.ravel() for x in make_obs(["mixed", b.c["obs"][1] + k], b.grids, (3 * k,), b.dt)])
        sets.append(s)
    initial = [[[x.copy() for x in obs] for obs in s] for s in sets]
    version = {}
    outs = {}
    works = [Work(b) for b in built]
    memo, bounds, text, seen = {}, {}, {}, set()
    kept = []  # arrays returned to the caller, with their content at that time

    def agree(key, got, how):
        if key in memo:
            if not same(memo[key], got):
                raise Bad(f"step {step}: {how} gives {got.tolist()}, earlier {memo[key].tolist()}")
            seen.add(key)
        else:
            memo[key] = np.array(got)

    for step, (op, oi, si, p) in enumerate(c["ops"]):
        o, i = live[oi % len(live)]
        b, obs = built[i], sets[i][si]
        if op == "rewrite":
            # the caller stores other coordinates in the same arrays
            version[i, si] = version.get((i, si), 0) + 1 if p % 3 else 0
            for x, y in zip(obs, initial[i][si] if p % 3 == 0 else make_obs(["mixed", b.c["obs"][1] + 10 + version[i, si]], b.grids, (obs[0].size,), b.dt)):
                x[...] = y
        every = Frozen([x for bb in built for x in [bb.vals, bb.starts, bb.steps] + bb.grids], sets, [arrays_of(q) for q, _ in live])
        key = (i, si, version.get((i, si), 0))
        ctx.label(op)
        fresh = None
        if op == "eval":
            fresh = o.eval(obs)
            agree(key, fresh, "eval")
        elif op == "eval_unchecked":
            fresh = o.eval_unchecked(obs)
            agree(key, fresh, "eval_unchecked")
        elif op == "burst":
            for _ in range((10, 40, 130, 260, 520, 1100)[p]):
                fresh = o.eval(obs) if si else o.eval_unchecked(obs)
                agree(key, fresh, "one of many evaluations")
        elif op == "eval_out":
            out = outs.setdefault((obs[0].size, b.c["dtype"]), np.full(obs[0].size, np.nan, b.dt))
            (o.eval if p % 2 else o.eval_unchecked)(obs, out)
            agree(key, out, "eval(out)")
        elif op == "bounds":
            f = o.check_bounds(obs, float(p))
            if (key, p) in bounds and not np.array_equal(bounds[key, p], f):
                raise Bad(f"step {step}: check_bounds gives {f}, earlier {bounds[key, p]}")
            bounds[key, p] = f
        elif op == "dump":
            t = o.model_dump_json()
            if text.setdefault(i, t) != t:
                raise Bad(f"step {step}: the object's dump changed")
        elif op == "reload":
            live[oi % len(live)] = (type(o).model_validate_json(o.model_dump_json()), i)
        elif op == "new":
            mine = dict(vals=b.vals.copy()) | (dict(starts=b.starts.copy(), steps=b.steps.copy(), dims=list(b.dims)) if b.kind == "regular" else dict(grids=[g.copy() for g in b.grids]))
            if p % 2:
                mine["vals"] = mine["vals"].ravel()
            q = construct(b, **mine)
            if p % 3:
                # the caller goes on to use these arrays for something else
                for x in arrays_in(list(mine.values())):
                    x[...] = np.nan if p % 3 == 1 else 0
                if b.kind == "regular":
                    mine["dims"].clear()
                else:
                    mine["grids"].clear()
            if len(live) < 6:
                live.append((q, i))
            else:
                live[oi % len(live)] = (q, i)
        elif op == "twin":
            agree(key, construct(b).eval(obs), "a new object")
        elif op == "assign":
            f = list(type(o).model_fields)[p % len(type(o).model_fields)]
            old = getattr(o, f)
            for target, name, value in ((o, f, built[0].vals), (o, "anything", 1), (o.vals, "data", np.zeros(o.vals.data.size, b.dt)), (o.vals, "dtype", "float32")):
                try:
                    setattr(target, name, value)
                except Exception:
                    pass
                else:
                    raise Bad(f"step {step}: assignment to {type(target).__name__}.{name} is accepted")
            try:
                delattr(o, f)
            except Exception:
                pass
            else:
                raise Bad(f"step {step}: deleting {f} is accepted")
            if getattr(o, f) is not old:
                raise Bad(f"step {step}: {f} was replaced")
        elif op == "interpn":
            kw = {"assume_regular": True} if p % 2 and b.kind == "regular" else {}
            if p % 3 == 1:
                kw |= {"check_bounds": True, "bounds_atol": float(p) * abs(float(b.steps[0]))}
            try:
                fresh = pkg.interpn(obs, b.grids, b.vals, method=b.method, linearize_extrapolation=b.lin, **kw)
            except ValueError:
                if p % 3 != 1:
                    raise
                agree(key + ("interpn", p % 2, p), np.array(1.0), "bounds-checked interpn")
            else:
                agree(key + ("interpn", p % 2), fresh, "interpn")
                if p % 3 == 1:
                    agree(key + ("interpn", p % 2, p), np.array(0.0), "bounds-checked interpn")
        elif op == "laid":
            # the same numbers in other memory layouts
            pick = lambda k: LAYOUTS[(p + 3 * si + k) % len(LAYOUTS)]
            a = [[lay(x, pick(0)) for x in obs], [lay(g, pick(k + 1)) for k, g in enumerate(b.grids)], lay(b.vals, pick(5))]
            own = Frozen(a, [x.base for x in arrays_in(a) if isinstance(x.base, np.ndarray)])
            got = pkg.interpn(*a, method=b.method, linearize_extrapolation=b.lin)
            if own.changed() is not None:
                raise Bad(f"step {step}: interpn modified an input (number {own.changed()} of {a})")
            agree(key + ("interpn", 0), got, "interpn on other memory layouts")
        elif op == "raw":
            out = np.full(obs[0].size, 3.0, b.dt)
            raw_fn(b)(*raw_args(b, obs, out))
            agree(key, out, "raw binding")
        elif op == "work":
            works[i].set(p)
            two = []
            for fresh_arrays in (False, True):
                q = works[i].arrays(fresh_arrays)
                own = Frozen([q.grids, q.vals, q.starts, q.steps])
                out = np.full(obs[0].size, 3.0, b.dt)
                # the raw bindings take the values in one dimension (a view of the same memory)
                raw_fn(b)(*raw_args(q, obs, out))
                low = [[q.dims, q.starts, q.steps], [q.grids]][b.kind != "regular"]
                flags = np.zeros(b.nd, bool)
                getattr(raw, f"check_bounds_{b.kind}_f{BITS[b.c['dtype']]}")(*low, obs, 0.25, flags)
                two.append([call(b, obs, q.grids, q.vals), out, flags, construct(q).eval(obs)])
                if own.changed() is not None:
                    raise Bad(f"step {step}: the arrays of the problem were modified")
            for k, (got, want) in enumerate(zip(*two)):
                how = ("interpn", "the raw binding", "the raw bounds check", "a new object")[k]
                if not same(got, want):
                    raise Bad(f"step {step}: {how} on rewritten arrays gives {got.tolist()}, on fresh copies of them {want.tolist()}")
                agree(key + ("work", p, k), got.astype(float), f"{how} on rewritten arrays")
        elif op == "bad":
            try:
                o.eval(obs + [obs[0]])
            except Exception:
                pass
            else:
                raise Bad(f"step {step}: eval accepted too many coordinate arrays")
        elif op == "repr":
            repr(o), o.ndims(), o.model_dump()
            o == o
        if fresh is not None:
            if p % 3 == 2:
                fresh[...] = -77.0  # the caller overwrites the result it was given
            kept.append((step, fresh, fresh.copy()))
        w = every.changed()
        if w is not None:
            raise Bad(f"step {step}: {op} modified an input or held array (number {w})")
        for when, r, was in kept:
            if not same(r, was):
                raise Bad(f"step {step}: {op} changed the array returned at step {when} from {was.tolist()} to {r.tolist()}")
    return bool(seen)


# ---------------------------------------------------------------- C31
@st.composite
def c31(draw, tier):
    n = draw(st.integers(1, 3))
    c = {"objs": [draw(problem(maxdims=4, scalar_shapes=False)) for _ in range(n)]}
    if draw(st.booleans()):
        # a second object of the same shape and type on another grid
        q = copy.deepcopy(c["objs"][0])
        q["axes"] = [[draw(st.sampled_from(REG)), draw(SEED)] for _ in q["axes"]]
        q["vals"][1] = draw(SEED)
        c["objs"][1:] = [q] + c["objs"][2:]
    task = st.tuples(st.sampled_from(["eval", "eval", "eval_unchecked", "eval_out", "bounds", "dump", "interpn", "interpn", "interpn_out", "raw", "twin", "reload", "failing"]), st.integers(0, 2), st.integers(0, 2)).map(list)
    c["plans"] = draw(st.lists(st.lists(task, min_size=1, max_size=8), min_size=2, max_size=6))
    c["sched"] = draw(st.one_of(st.none(), *[st.tuples(SEED, st.sampled_from([0.02, 0.1, 0.3, 0.9]), st.booleans()).map(list)] * 2))
    c["rounds"] = draw(st.integers(1, 2 if c["sched"] else 40 if tier == "thorough" else 12))
    return c


class Turns:
    """Lets one thread run at a time and hands over at generated points of the package's Python code."""

    def __init__(self, n, sched):
        self.r = random.Random(sched[0])
        self.often, self.opcodes = sched[1], sched[2]
        self.alive, self.current, self.events, self.switches = list(range(n)), 0, 0, 0
        self.stuck, self.passed, self.free = set(), 0, False
        self.cond = threading.Condition()
        self.where = os.path.dirname(pkg.__file__) + os.sep

    def wait(self, me):
        """until it is this thread's turn; a holder that makes no progress (it waits for a lock, say) is passed over"""
        while self.current != me and not self.free:
            before = self.events
            if not self.cond.wait(0.02) and self.events == before and self.current != me:
                self.stuck.add(self.current)
                self.current = me
                self.passed += 1
                if self.passed > 20:
                    self.free = True
                    self.cond.notify_all()

    def begin(self, me):
        with self.cond:
            self.wait(me)
        sys.settrace(lambda frame, event, arg: self.enter(frame, me))

    def enter(self, frame, me):
        if not frame.f_code.co_filename.startswith(self.where):
            return None
        frame.f_trace_opcodes = self.opcodes
        frame.f_trace_lines = not self.opcodes

        def step(frame, event, arg):
            self.events += 1
            if self.free:
                return step
            if me in self.stuck:
                with self.cond:
                    self.stuck.discard(me)
                    self.wait(me)
            if event in ("line", "opcode") and self.r.random() < self.often:
                to = self.r.choice([k for k in self.alive if k not in self.stuck] or [me])
                if to != me:
                    self.switches += 1
                    with self.cond:
                        self.current = to
                        self.cond.notify_all()
                        self.wait(me)
            return step

        return step

    def end(self, me):
        sys.settrace(None)
        with self.cond:
            self.alive.remove(me)
            self.stuck.discard(me)
            if self.alive:
                self.current = self.r.choice([k for k in self.alive if k not in self.stuck] or self.alive)
            self.cond.notify_all()


def c31_check(c, ctx):
    built = [Built(p) for p in c["objs"]]
    if not all(b.sane() for b in built):
        raise Skip
    objs = [construct(b) for b in built]
    sets = []
    for b in built:
        size = flat(b)[0].size
        s = [flat(b)]
        for k in (1, 2):  # further points, in arrays of the same and of another size
            s.append([x.ravel() for x in make_obs(["mixed", b.c["obs"][1] + k], b.grids, (size if k == 1 else 7,), b.dt)])
        sets.append(s)
    every = Frozen([x for b in built for x in [b.vals, b.starts, b.steps] + b.grids], sets, [arrays_of(q) for q in objs])

    def task(op, i, si, mine):
        b, o, obs = built[i], objs[i], sets[i][si]
        if op == "eval":
            return o.eval(obs)
        if op == "eval_unchecked":
            return o.eval_unchecked(obs)
        if op == "eval_out":
            out = mine.setdefault((obs[0].size, b.c["dtype"]), np.full(obs[0].size, np.nan, b.dt))
            o.eval(obs, out)
            return out
        if op == "bounds":
            return np.asarray(o.check_bounds(obs, 0.25)).astype(b.dt)
        if op == "dump":
            return np.frombuffer(o.model_dump_json().encode(), np.uint8)
        if op == "interpn":
            return pkg.interpn(obs, b.grids, b.vals, method=b.method, linearize_extrapolation=b.lin)
        if op == "interpn_out":
            out = mine.setdefault((obs[0].size, b.c["dtype"]), np.full(obs[0].size, np.nan, b.dt))
            return pkg.interpn(obs, b.grids, b.vals, method=b.method, linearize_extrapolation=b.lin, out=out)
        if op == "raw":
            out = np.full(obs[0].size, 3.0, b.dt)
            raw_fn(b)(*raw_args(b, obs, out))
            return out
        if op == "twin":
            return construct(b).eval(obs)
        if op == "reload":
            return type(o).model_validate_json(o.model_dump_json()).eval(obs)
        try:
            o.eval(obs + [obs[0]])
        except Exception as e:
            return np.frombuffer(type(e).__name__.encode(), np.uint8)
        raise Bad("eval accepted too many coordinate arrays")

    plans = [[(op, i % len(built), si) for op, i, si in plan] for plan in c["plans"]]
    want = {k: np.array(task(*k, {})) for plan in plans for k in plan}
    problems, start = [], threading.Barrier(len(plans))

    turns = Turns(len(plans), c["sched"]) if c["sched"] else None

    def work(plan, me):
        try:
            mine = {}
            start.wait()
            if turns:
                turns.begin(me)
            for _ in range(c["rounds"]):
                for k in plan:
                    got = task(*k, mine)
                    if not same(want[k], got):
                        problems.append(f"{k[0]} of object {k[1]} gives {np.asarray(got).tolist()} while other threads call the package, otherwise {want[k].tolist()}")
                        return
        except BaseException as e:
            problems.append(f"{type(e).__name__} while other threads call the package: {e}")
        finally:
            if turns:
                turns.end(me)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(p, k), daemon=True) for k, p in enumerate(plans)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if problems:
        raise Bad(problems[0])
    w = every.changed()
    if w is not None:
        raise Bad(f"an input or held array was modified (number {w})")
    for plan in plans:
        for op, _, _ in plan:
            ctx.label(op)
    ctx.label(f"{len(plans)} threads")
    if turns:
        ctx.label("scheduled by " + ("opcode" if turns.opcodes else "line"))
        ctx.labels["switches"] += turns.switches
        ctx.labels["turns passed over"] += turns.passed
    return len({k for p in plans for k in p}) > 1


# ---------------------------------------------------------------- C34
@st.composite
def c34(draw, tier):
    c = draw(problem(maxdims=6))
    c["lay"] = [draw(st.sampled_from(LAYOUTS)) for _ in range(3)]
    c["atol"] = draw(st.sampled_from([0.0, 1e-8, 1e-3, 10.0, 1e9]))
    return c


SERVERS = {}


def ask(mode, c):
    """the outcomes in an interpreter started in that mode"""
    p = SERVERS.get(mode)
    if p is None:
        here = os.path.dirname(os.path.abspath(__file__))
        p = SERVERS[mode] = subprocess.Popen(
            [sys.executable, *modes.MODES[mode], os.path.join(here, "modes.py"), mode, *sys.path[:2]],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.stdout.readline().strip() != "ready":
            SERVERS.pop(mode)
            raise Bad(f"import of the package in mode {mode}: {p.stderr.read()[-1200:]}")
    try:
        p.stdin.write(json.dumps(c) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except BrokenPipeError:
        line = ""
    if not line:
        SERVERS.pop(mode)
        raise Bad(f"the interpreter in mode {mode} ended ({p.wait()}): {p.stderr.read()[-1200:]}")
    return json.loads(line)


def c34_check(c, ctx):
    with np.errstate(all="warn"):
        here = modes.outcomes(pkg, c, True)
    if not here:
        raise Skip
    ctx.label(f"{c['method']} {c['kind']} {c['dtype']}")
    for mode in modes.MODES:
        there = ask(mode, c)
        want = here[: len(there)]
        if mode != "no_pydantic" and len(there) != len(here):
            raise Bad(f"{mode}: {[x[0] for x in there]} answered instead of {[x[0] for x in here]}")
        for (n, a), (m, b) in zip(want, there):
            if n != m or a != b:
                raise Bad(f"{mode}: {m} gives {b}, and {n} gives {a} otherwise")
    for n, a in here:
        if ": " in a and not a.startswith("{"):
            ctx.label(f"{n}: {a.split(':')[0]}")
    return True


RULES = {
    "C24": "one generated problem (method, grid kind, dtype, dims, values, points, layouts), evaluated through the raw binding, the class's eval and eval_unchecked, and interpn(); non-trivial: at least one point judged against the model and values not all equal",
    "C25": "one generated problem with output arrays inside guarded buffers, of various layouts and contents, reused over up to four calls; non-trivial: non-empty output and a non-zero result",
    "C26": "one generated problem with up to three coordinates moved to just inside, on or just beyond the tolerance; non-trivial: some coordinate was moved and the expected verdict is certain on every axis",
    "C27": "one interpolator with generated bit patterns, stored and reloaded or copied up to four times by generated routes (JSON text in several forms, dictionaries, pickle, copies); non-trivial: values not all equal",
    "C28": "one malformed call of one entry point (one or two malformations), with valid calls before and after; non-trivial: every case in which a malformation applied",
    "C29": "one history of 2-24 (thorough 2-40) operations on up to six live objects; non-trivial: some object and observation set was evaluated at least twice",
    "C31": "2-6 threads carry out generated sequences of up to 8 calls (evaluations through every path, with and without output arrays, bounds checks, dumps, reloads, constructions, failing calls) on shared objects and arrays, 1-12 (thorough 40) times over, either freely with a switch interval of a microsecond or under a generated schedule that hands over between lines or bytecodes of the package; every result is compared bitwise with that of a sequential call; non-trivial: at least two different calls",
    "C34": "one generated problem, evaluated through interpn(), the raw bindings and the classes, with a few failing calls, here and in three interpreters started without pydantic, with -O, and with -OO, warnings as errors and NumPy errors raised; non-trivial: every case",
}
PROPS = {"C24": (c24, c24_check), "C25": (c25, c25_check), "C26": (c26, c26_check), "C27": (c27, c27_check), "C28": (c28, c28_check), "C29": (c29, c29_check), "C31": (c31, c31_check), "C34": (c34, c34_check)}

"""C34: what the entry points return for one case, in this interpreter.

Imported by props.py, and run as a script inside interpreters started differently:
    modes.py no_pydantic|optimized|strict SITE WHEELS
which read one case per line and answer with the outcomes."""
import hashlib
import json
import sys
import warnings

MODES = {"no_pydantic": [], "optimized": ["-O"], "strict": ["-OO"]}


def outcomes(pkg, c, classes):
    """[name, outcome] of each call"""
    import numpy as np
    from gen import Built, lay

    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = Built(c)
        if not b.sane():
            return []
        lo, lg, lv = c["lay"]
        obs = [lay(x, lo) for x in b.obs]
        grids = [lay(x, lg) for x in b.grids]
        vals = lay(b.vals, lv)
        flat = [np.ascontiguousarray(o.ravel()) for o in b.obs]
        fv = b.vals.ravel()
        out = np.full(b.shape, -7.0, b.dt)
    bits = {"f8": 64, "f4": 32}[c["dtype"]]
    got = []

    def put(name, f, *a, **k):
        try:
            r = f(*a, **k)
        except Exception as e:
            got.append([name, f"{type(e).__name__}: {e}"])
            return None
        if isinstance(r, np.ndarray):
            got.append([name, f"{r.dtype} {r.shape} {hashlib.sha1(r.tobytes()).hexdigest()} {r.ravel()[:3]}"])
        elif isinstance(r, str):
            got.append([name, r])
        return r

    common = dict(method=b.method, linearize_extrapolation=b.lin)
    put("interpn", pkg.interpn, obs, grids, vals, **common)
    put("interpn(out)", pkg.interpn, obs, grids, vals, out=out, **common)
    put("interpn(check_bounds)", pkg.interpn, obs, grids, vals, check_bounds=True, bounds_atol=c["atol"], **common)
    if b.kind == "regular":
        put("interpn(assume_regular)", pkg.interpn, obs, grids, vals, assume_regular=True, **common)
    put("interpn(no such method)", pkg.interpn, obs, grids, vals, method="quintic")
    lin = [b.lin] if b.method == "cubic" else []
    where = [b.dims, b.starts, b.steps] if b.kind == "regular" else [b.grids]

    def raw(n, values):
        r = np.full(n, -7.0, b.dt)
        getattr(pkg.raw, f"interpn_{b.method}_{b.kind}_f{bits}")(*where, values, *lin, flat, r)
        return r

    def raw_bounds():
        r = np.zeros(b.nd, bool)
        getattr(pkg.raw, f"check_bounds_{b.kind}_f{bits}")(*where, flat, c["atol"], r)
        return r

    put("raw", raw, flat[0].size, fv)
    put("raw(short values)", raw, flat[0].size, fv[1:])
    put("raw(long output)", raw, flat[0].size + 1, fv)
    put("raw bounds", raw_bounds)
    for name in pkg.__all__:
        if not hasattr(pkg, name):
            got.append([name, "listed in __all__ but missing"])
    if classes:
        which = {"linear": "Multilinear", "cubic": "Multicubic", "nearest": "Nearest"}[b.method] + b.kind.capitalize()
        new = {"linearize_extrapolation": b.lin} if b.method == "cubic" else {}
        # `new` flattens the values itself
        o = put("new", getattr(pkg, which).new, *where, vals, **new)
        if o is not None:
            put("eval", o.eval, flat)
            put("eval_unchecked", o.eval_unchecked, flat)
            put("check_bounds", o.check_bounds, flat, c["atol"])
            text = put("dump", o.model_dump_json)
            if text is not None:
                back = put("load", type(o).model_validate_json, text)
                if back is not None:
                    put("eval after reload", back.eval, flat)
    return got


def serve(mode, site, wheels):
    sys.path[:0] = [site, wheels]
    import numpy as np

    import gen  # noqa: F401

    if mode == "no_pydantic":
        sys.modules["pydantic"] = None
    if mode == "strict":
        warnings.simplefilter("error")
        np.seterr(divide="raise", invalid="raise", over="raise")
    import interpn as pkg

    print("ready", flush=True)
    for line in sys.stdin:
        print(json.dumps(outcomes(pkg, json.loads(line), mode != "no_pydantic")), flush=True)


if __name__ == "__main__":
    serve(*sys.argv[1:4])

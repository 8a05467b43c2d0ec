"""C19: surfaces do not depend on how the inputs are represented, and leave the inputs alone."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import F, I, build, eos_arg, ocean
from harness.omegaref import graph, grid_of
from harness.oracle import RefCast, as_array, expect_close
from neutralocean.eos.tools import make_eos, make_eos_s_t
from neutralocean.mixed_layer import mixed_layer
from neutralocean.surface import anomaly_surf, omega_surf, potential_surf

RULE = (
    "A case is an ocean, a kind of surface and one alternative representation of the same inputs: another vertical "
    "dimension (by number, negative number or name), memory layout (Fortran, strided, reversed, big-endian), precision "
    "(float32 values, integer levels), DataArrays with or without coordinates, P shared 1-D, pin cast as tuple / list / dict "
    "/ int, edges as tuples / lists / matrix / int32, distances as lists, equation of state by name or by functions.  The "
    "outcome must be that of the plain representation, and every array passed in must come out untouched.  Non-trivial: the "
    "surface exists in at least two casts."
)
ASSUMPTIONS = ["values are representable in the alternative precision"]


@st.composite
def case(draw, cfg):
    kind, nd = cfg[0], cfg[1]
    p1 = draw(st.booleans())
    o = draw(ocean(hdims=(nd,), nmax=(8, 4)[nd - 1], nk=(3, 9), stable=draw(I(0, 2)) > 0, mask_max=3, p3=not p1))
    c = dict(cfg=cfg, o=o, pin=draw(I(0, 10**4)), fr=draw(F(0.05, 0.95)), p1=p1)
    c["vd"] = draw(I(0, nd))
    c["vdform"] = draw(st.sampled_from(["int", "neg", "str", "np"]))
    c["lay"] = draw(st.sampled_from(["C", "F", "strided", "rev", "be", "f32", "mixed"]))
    c["xr"] = draw(st.sampled_from(["none", "bare", "coords", "pnp"]))
    c["pinform"] = draw(st.sampled_from(["tuple", "list", "dict", "np"]))
    c["desc"] = draw(st.booleans())
    c["edform"] = draw(st.sampled_from(["tuple", "lists", "array", "int32", "listoflists"]))
    c["eosform"] = draw(st.sampled_from(["same", "fn"]))
    c["g"] = draw(graph())
    c["init"] = draw(st.sampled_from(["scalar", "npfloat", "array", "int", "f32", "xr", "F"]))
    c["ml"] = draw(st.sampled_from(["none", "array", "dict"]))
    return c


def lay(x, how):
    if how == "F":
        return np.asfortranarray(x)
    if how == "strided":
        big = np.full(tuple(2 * n for n in x.shape), -999.0)
        sl = tuple(slice(1, None, 2) for _ in x.shape)
        big[sl] = x
        return big[sl]
    if how == "rev":
        sl = tuple(slice(None, None, -1) for _ in x.shape)
        return x[sl].copy()[sl]
    if how == "be":
        return x.astype(">f8")
    if how == "f32":
        return x.astype(np.float32)
    return x.copy()


def snap(x):
    v = getattr(x, "values", x)
    return v, np.array(v, copy=True)


def check(c, ctx):
    kind, nd, eosname, interp, bsq = c["cfg"]
    grav, rho_c = bsq or (None, None)
    S, T, P = build(c["o"], pnan=not c["p1"])
    if c["lay"] == "f32":
        S, T, P = (x.astype(np.float32).astype(float) for x in (S, T, P))
        if not np.all(np.nan_to_num(np.diff(P, axis=-1), nan=1.0) > 0):
            return
    hs = S.shape[:-1]
    N = int(np.prod(hs))
    casts = [RefCast(*(X.reshape(N, -1)[n] for X in (S, T, P)), interp) for n in range(N)]
    ok = [n for n in range(N) if casts[n].ok]
    if not ok:
        return
    m = ok[c["pin"] % len(ok)]
    cm = casts[m]
    pin = tuple(int(i) for i in np.unravel_index(m, hs))
    pin_p = float(np.float32(cm.A + c["fr"] * (cm.B - cm.A)))
    if c["init"] == "int":
        pin_p = float(round(pin_p))
    if not cm.A < pin_p < cm.B:
        return
    grid, a, b, dist, distperp = grid_of(c["g"], hs)

    def run(S, T, P, pin, grid, eos, vd, init, ml):
        kw = dict(eos=eos, interp=interp, vert_dim=vd, output=False)
        if not isinstance(eos, (tuple, list)) and not callable(eos):
            kw.update(grav=grav, rho_c=rho_c)
        if kind == "omega":
            return call(omega_surf, S, T, P, grid, pin, init, ITER_MAX=3, p_ml=ml, **kw)
        if kind == "ml":
            kw.pop("output")
            if isinstance(eos, (tuple, list)):
                kw["eos"] = eos[0]
            return (call(mixed_layer, S, T, P, ref_p=50.0, **kw),)
        fn = potential_surf if kind == "potential" else anomaly_surf
        return call(fn, S, T, P, grid=grid, pin_cast=pin, pin_p=pin_p, **kw)

    q = np.full(hs, pin_p)
    scalar = c["init"] in ("scalar", "npfloat")
    mlv = None
    if c["ml"] in ("array", "xrml"):
        mlv = np.full(hs, 0.3 * pin_p)
    elif c["ml"] == "dict":
        mlv = dict(pot_dens_diff=1e-6, bottle_index=0)
    base = run(S.copy(), T.copy(), P.copy(), pin, grid, eos_arg(eosname), -1, pin_p if scalar else q.copy(), mlv)
    # ---- the alternative
    v = c["vd"]
    how = c["lay"]
    alt = [lay(np.moveaxis(x, -1, v), how if how != "mixed" else ["C", "F", "strided"][i]) for i, x in enumerate((S, T, P))]
    if c["p1"]:
        alt[2] = lay(P.reshape(N, -1)[0], how if how != "mixed" else "rev")
    dims = ["y", "x"][:nd]
    dims.insert(v, "k")
    vd = {"int": v, "neg": v - nd - 1, "np": np.int64(v)}.get(c["vdform"], v)
    coords = {d: (np.arange(n) * 10.0 + 5.0)[:: -1 if c["desc"] else 1] for d, n in zip(["y", "x"], hs)}
    coords["k"] = np.arange(S.shape[-1]) + 0.5
    pinalt = {"tuple": pin, "list": list(pin), "np": tuple(np.int64(i) for i in pin)}.get(c["pinform"], pin)
    if c["xr"] != "none":
        cc = {d: coords[d] for d in dims} if c["xr"] != "bare" else {}
        for i, nm in ((0, "salt"), (1, "theta")):
            alt[i] = xr.DataArray(alt[i], dims=dims, coords=cc, name=nm, attrs={"u": nm})
        if c["xr"] != "pnp":
            alt[2] = xr.DataArray(alt[2], dims=["k"] if c["p1"] else dims, name="pres", attrs={"u": "dbar"})
        if c["vdform"] == "str":
            vd = "k"
        elif c["vdform"] == "np":
            vd = v
        if c["pinform"] == "dict" and c["xr"] != "bare":
            pinalt = {d: float(coords[d][i]) for d, i in reversed(list(zip(["y", "x"], pin)))}
    galt = dict(grid)
    ea, eb = a.copy(), b.copy()
    if c["edform"] in ("lists", "listoflists") and len(ea):
        galt["edges"] = (ea.tolist(), eb.tolist()) if c["edform"] == "lists" else [ea.tolist(), eb.tolist()]
        for key in ("dist", "distperp"):
            if isinstance(galt.get(key), np.ndarray):
                galt[key] = galt[key].tolist()
    elif c["edform"] == "array":
        galt["edges"] = np.array([ea, eb])
    elif c["edform"] == "int32":
        galt["edges"] = (ea.astype(np.int32), eb.astype(np.int32))
    eosalt = eos_arg(eosname)
    if c["eosform"] == "fn" and isinstance(eosalt, str):
        eosalt = (make_eos(eosname, grav, rho_c), make_eos_s_t(eosname, grav, rho_c))
    init = {"scalar": pin_p, "npfloat": np.float64(pin_p), "int": np.full(hs, int(pin_p)), "f32": q.astype(np.float32), "xr": xr.DataArray(q.copy(), dims=["y", "x"][:nd]), "F": np.asfortranarray(q)}.get(c["init"], q.copy())
    mlalt = xr.DataArray(mlv, dims=["y", "x"][:nd]) if c["ml"] == "xrml" else mlv
    watch = [snap(x) for x in (*alt, *galt["edges"], *(galt[k] for k in ("dist", "distperp") if k in galt), init, *([mlalt] if c["ml"] in ("array", "xrml") else []))]
    what = f"{kind} vert_dim={vd!r} {how} xr={c['xr']} P{'1d' if c['p1'] else ''} pin={c['pinform']} edges={c['edform']} eos={c['eosform']} init={c['init']}"
    keep = lambda: repr((pinalt, sorted(galt), mlalt if isinstance(mlalt, dict) else 0, [(x.dims, x.name, x.attrs, sorted(x.coords)) for x in (*alt, init) if hasattr(x, "dims")]))
    tidy = keep()
    out = run(*alt, pinalt, galt, eosalt, vd, init, mlalt)
    require(keep() == tidy, lambda: f"{what}: a list, dict or label passed in was changed: {keep()} instead of {tidy}")
    for now, before in watch:
        require(np.array_equal(np.asarray(now), before, equal_nan=before.dtype.kind == "f"), f"{what}: an input array was changed")
    n_wet = 0
    for i, (x, y) in enumerate(zip(base[:3], out[:3])):
        x, y2 = as_array(x, hs, what), as_array(y, hs, what)
        n_wet = int(np.isfinite(x).sum())
        expect_close(y2, x, f"{what}: {'stp'[i]}", rtol=1e-9, atol=1e-9)
        if kind != "ml" and c["xr"] != "none":
            hd = tuple(["y", "x"][:nd])
            require(isinstance(y, xr.DataArray), f"{what}: output {'stp'[i]} is a {type(y).__name__} though the input is a DataArray")
            require(y.dims == hd, lambda: f"{what}: output dims {y.dims} instead of {hd}")
            if c["xr"] != "bare":
                for d in hd:
                    require(d in y.coords and np.array_equal(y.coords[d].values, coords[d]), f"{what}: output {'stp'[i]} lost coordinate {d}")
            if i < 2:
                require(y.name == ("salt", "theta")[i] and y.attrs.get("u") == y.name, f"{what}: output {'st'[i]} has name {y.name!r}, attrs {y.attrs}")
            elif c["xr"] != "pnp":
                require(y.name == "pres" and y.attrs.get("u") == "dbar", f"{what}: output p has name {y.name!r}, attrs {y.attrs}")
        elif kind != "ml":
            require(isinstance(y, np.ndarray), f"{what}: output {'stp'[i]} is a {type(y).__name__} though the input is an ndarray")
    if kind in ("potential", "anomaly", "omega"):
        for key in ("e_RMS", "e_MAV"):
            u, w = (np.asarray(z[3][key], float).reshape(-1) for z in (base, out))
            require(u.shape == w.shape and np.allclose(u, w, rtol=1e-7, atol=1e-9 * float(np.max(np.abs(u), initial=0)) + 1e-18, equal_nan=True), lambda: f"{what}: {key} {w} instead of {u}")
    for lb in (how, "xr-" + c["xr"], "pin-" + c["pinform"], "init-" + c["init"], "ed-" + c["edform"]):
        ctx.label(lb)
    ctx.nontrivial(n_wet >= 2)


BSQ = [9.81, 1027.5]
CONF = [["potential", 2, "gsw", "linear", None], ["potential", 1, "jmd95", "pchip", BSQ], ["anomaly", 2, "jmd95", "linear", BSQ], ["omega", 2, "gsw", "linear", BSQ], ["omega", 1, "jmd95", "pchip", None], ["omega", 2, "custom", "linear", None], ["ml", 2, "gsw", "linear", BSQ], ["ml", 1, "jmd95", "pchip", None]]
SUBS = [Sub("repr", case, check, CONF, n=(450, 6000), cap=(70, 600))]

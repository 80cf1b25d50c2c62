"""C09: vectors behave like arrays of points under shape operations, indexing and introspection."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
from mon import model as M, gen as G, runtime as R, build as B

PROP = "C09"
RULE = ("every vector class x batch shape x per-component shape pattern x operation (index, slice, mask, gather, newaxis, ellipsis, "
        "reshape, flatten, ravel, T, mT, broadcast_to, iteration, len, introspection), compared bit-exactly with NumPy acting on "
        "the broadcast raw component arrays; distinct = that tuple")
ASSUMPTIONS = ["jnp.broadcast_to on vectors takes the target shape with the component axis appended (documented)",
               "boolean masks are concrete"]
REQUIRED = {"index": 800, "reshape": 200, "transpose": 100, "flatten": 150, "iterate": 60, "introspect": 100, "broadcast_to": 60,
            "refused": 60}
SHAPES = [(), (5,), (1,), (2, 3), (3, 1), (2, 1, 3), (2, 3, 4), (2, 1, 3, 2), (0,), (0, 2)]


# ------------------------------------------------------------------ builders: (vector, {leaf: ndarray at full batch shape}, meta)
class Case:
    """A vector plus the reference arrays (batch shape + trailing shape) of each leaf."""

    def __init__(self, name, rng, shp, pattern):
        self.name, self.shp = name, shp
        v = G.vecs()
        self.trail = 0
        if name in B.ND:
            f, o = B.ND[name]
            un = ["kpc", "kpc/Myr", "kpc/Myr2"][o]
            n = 3 if pattern != "b" else 1
            x = rng.normal(size=shp + (n,))
            self.vec = getattr(v, name)(G.quantity(x, un))
            self.ref, self.units, self.trail = {f: x}, {f: un}, 1
        elif name.startswith("FourVector"):
            rep = name.split(":")[1]
            sub = Case(rep, rng, shp, pattern)
            tshape = self.comp_shape(rng, shp, "rand" if pattern != "full" else "full")
            t = rng.normal(size=tshape)
            self.vec = v.FourVector(t=G.quantity(t, "Myr"), q=sub.vec, c=G.quantity(123.0, "km/s"))
            self.ref = {"t": np.broadcast_to(t, shp), **{"q." + k: x for k, x in sub.ref.items()}}
            self.units = {"t": "Myr", **{"q." + k: x for k, x in sub.units.items()}}
            self.raw = {"t": tshape, "q": None}
            return
        elif name == "CartesianGeneric3D":
            self.units = {"x": "km/s", "y": "m/s", "z": "km/s"}
            raw = {k: rng.normal(size=self.comp_shape(rng, shp, pattern, i)) for i, k in enumerate("xyz")}
            raw["y"] = rng.normal(size=shp)
            self.vec = v.CartesianGeneric3D(**{k: G.quantity(x, self.units[k]) for k, x in raw.items()})
            self.ref = {k: np.broadcast_to(x, shp) for k, x in raw.items()}
            self.raw = {k: x.shape for k, x in raw.items()}
        elif name == "PoincarePolarVector":
            self.units = {"rho": "kpc", "pp_phi": "kpc/Myr(1/2)", "z": "pc", "d_rho": "km/s", "d_pp_phi": "kpc/Myr(1/2)", "d_z": "km/s"}
            raw = {k: np.abs(rng.normal(size=self.comp_shape(rng, shp, pattern, i))) for i, k in enumerate(self.units)}
            raw["z"] = rng.normal(size=shp)
            self.vec = v.PoincarePolarVector(**{k: G.quantity(x, self.units[k]) for k, x in raw.items()})
            self.ref = {k: np.broadcast_to(x, shp) for k, x in raw.items()}
            self.raw = {k: x.shape for k, x in raw.items()}
        else:
            comps = B.FIELDS[name][1]
            full = B.sane(rng, name, shp)
            raw = {}
            keep = int(rng.integers(len(comps)))  # one component always has the full shape
            for i, (k, _) in enumerate(comps):
                cs = shp if (i == keep and pattern != "full") or pattern == "full" else self.comp_shape(rng, shp, pattern, i)
                one = B.sane(rng, name, cs)[k]
                raw[k] = one
            self.units = {k: B.unit_of(name, k) for k, _ in comps}
            # different length units so that a mix-up of components shows
            self.vec = B.build(name, raw)
            # values as stored (azimuth wrapping is the identity for these in-range values)
            self.ref = {k: np.broadcast_to(raw[k], shp) for k in raw}
            self.raw = {k: x.shape for k, x in raw.items()}

    @staticmethod
    def comp_shape(rng, shp, pattern, i=0):
        if pattern == "full":
            return shp
        if pattern == "scalar":
            return ()
        # random broadcastable shape: drop leading axes, turn some into 1
        k = int(rng.integers(0, len(shp) + 1))
        s = list(shp[k:])
        for j in range(len(s)):
            if rng.random() < 0.4:
                s[j] = 1
        return tuple(s)


def leaves(vec, name):
    if name.startswith("FourVector"):
        return {"t": vec.t, **{"q." + k: getattr(vec.q, k) for k in vec.q.components}}
    return {k: getattr(vec, k) for k in vec.components}


def judge(ctx, c, out, fn, mech, trail=None, **w):
    """``out`` must be the same type, units and extra attributes, with every leaf equal to fn(reference leaf)."""
    ctx.check(type(out) is type(c.vec), mech + ":type", f"{type(out).__name__}", **w)
    if type(out) is not type(c.vec):
        return
    got = leaves(out, c.name)
    shp = None
    for k, ref in c.ref.items():
        want = fn(ref)
        g = np.asarray(got[k].value)
        # components must be aligned with the whole batch
        shp = want.shape[:-1] if c.trail else want.shape
        try:
            gb = np.broadcast_to(g, want.shape)
        except ValueError:
            gb = g
        if gb.shape != want.shape or not np.array_equal(gb, want):
            ctx.violation(mech, f"component {k}: got {g.shape} {g.ravel()[:6]}, NumPy gives {want.shape} {want.ravel()[:6]}", comp=k, **w)
        ctx.evals += max(1, want.size)
        ctx.check(M.factor(got[k].unit, c.units[k]) == 1.0, mech + ":unit", f"{k} {got[k].unit} != {c.units[k]}", **w)
    ctx.check(out.shape == shp, mech + ":shape", f"vector shape {out.shape} expected {shp}", **w)
    if c.name == "ProlateSpheroidalPos":
        ctx.check(out.Delta.shape == () and M.val(out.Delta, "kpc") == 1.0, mech + ":attr", f"Delta {out.Delta!r}", **w)
    if c.name.startswith("FourVector"):
        ctx.check(out.c.shape == () and M.val(out.c, "km/s") == 123.0, mech + ":attr", f"c {out.c!r}", **w)
        ctx.check(type(out.q) is type(c.vec.q), mech + ":type", f"{type(out.q)}", **w)


def indices(rng, shp):
    """Index expressions valid for an array of batch shape shp (as callables on arrays with optional trailing axes)."""
    n = len(shp)
    out = [("ellipsis", (Ellipsis,)), ("newaxis", (None,)), ("ell-new", (Ellipsis, None))]
    if n and shp[0]:
        s0 = shp[0]
        out += [("int", (0,)), ("neg", (-1,)), ("slice", (slice(None, None, -1),)), ("slice2", (slice(0, None, 2),)),
                ("empty", (slice(0, 0),)), ("gather", (np.array([0, s0 - 1, 0]),)), ("list", ([0, -1],)),
                ("gather2", (np.array([[0], [s0 - 1]]),)),
                ("mask", (rng.random(s0) < 0.5,)), ("new-int", (None, 0)), ("npint", (np.int64(s0 - 1),))]
        if n > 1 and shp[-1]:
            out += [("ell-int", (Ellipsis, -1)), ("ell-slice", (Ellipsis, slice(1, None))), ("int-slice", (0, slice(None))),
                    ("slice-int", (slice(None), 0)), ("ints", (0, -1)), ("mask-full", (rng.random(shp) < 0.5,)),
                    ("ell-gather", (Ellipsis, np.array([0, -1]))), ("slices", tuple(slice(None, None, -1) for _ in shp)),
                    ("gather-pair", (np.array([0, s0 - 1]), np.array([0, shp[1] - 1]))), ("slice-new", (slice(None), None))]
    return out


def pure(idx, trail):
    """The same index on an array with one more trailing (component) axis."""
    if not trail:
        return idx
    return (*idx, slice(None)) if any(i is Ellipsis for i in idx) else (*idx, Ellipsis, slice(None))


def reshapes(shp):
    n = int(np.prod(shp, dtype=int))
    out = [(n,), (1, n), (n, 1)]
    if n:
        out += [(-1,), (1, -1), (-1, 1)]
    for k in (2, 3, 4):
        if n and n % k == 0:
            out += [(k, n // k), (n // k, k)]
    if n == 1:
        out += [()]
    return out


NAMES = list(B.FIELDS) + list(B.ND) + ["CartesianGeneric3D", "PoincarePolarVector", "FourVector:CartesianPos3D", "FourVector:SphericalPos"]


def case(name):
    def run(ctx):
        import dataclassish as dcl
        import jax
        import quaxed.lax as qlax
        import quaxed.numpy as jnp
        rng = ctx.rng
        v = G.vecs()
        shapes = SHAPES if not ctx.quick() else [(), (5,), (2, 3), (2, 1, 3, 2), (0,)]
        for shp in shapes:
            for pattern in (("full", "b", "rand") if name not in B.ND else ("full", "b")):
                if shp == () and pattern != "full":
                    continue
                if ctx.quick() and name not in B.ND and (len(shp) >= 3 and pattern != "rand" or shp == (0,) and pattern != "full"
                                                         or shp == (5,) and pattern == "b"):
                    continue
                w = dict(cls=name, shape=shp, pattern=pattern)
                with ctx.scope("build", **w):
                    c = Case(name, rng, shp, pattern)
                    vec = c.vec
                if not hasattr(c, "vec"):
                    continue
                tr = c.trail
                # ---- introspection
                with ctx.scope("introspect", **w):
                    n = int(np.prod(shp, dtype=int))
                    ctx.check(tuple(vec.shape) == shp, "introspect:shape", f"{vec.shape}", **w)
                    ctx.check(vec.ndim == len(shp), "introspect:ndim", f"{vec.ndim}", **w)
                    ctx.check(vec.size == n, "introspect:size", f"{vec.size}", **w)
                    ctx.check(len(vec) == (shp[0] if shp else 0), "introspect:len", f"{len(vec)}", **w)
                    comps = list(vec.components)
                    expect = list(dict.fromkeys(k.split(".")[0] for k in c.ref))
                    ctx.check(comps == expect, "introspect:components", f"{comps} != {expect}", **w)
                    for prop in ("shapes", "sizes", "units", "dtypes"):
                        ctx.check(list(getattr(vec, prop)) == expect, f"introspect:{prop}:keys", f"{getattr(vec, prop)}", **w)
                    if tr:
                        f = comps[0]
                        ctx.check(tuple(vec.shapes[f]) == c.ref[f].shape, "introspect:shapes", f"{vec.shapes}", **w)
                        ctx.check(M.factor(vec.units[f], c.units[f]) == 1, "introspect:units", f"{vec.units}", **w)
                    elif not name.startswith("Four"):
                        for k in comps:
                            ctx.check(tuple(vec.shapes[k]) == c.raw[k], "introspect:shapes", f"{k} {vec.shapes[k]} != {c.raw[k]}", **w)
                            ctx.check(vec.sizes[k] == int(np.prod(c.raw[k], dtype=int)), "introspect:sizes", f"{k}", **w)
                            ctx.check(M.factor(vec.units[k], c.units[k]) == 1, "introspect:units", f"{k} {vec.units[k]}", **w)
                            ctx.check(vec.dtypes[k] == np.float64, "introspect:dtypes", f"{k} {vec.dtypes[k]}", **w)
                        d = vec.asdict()
                        extra = {"Delta"} if name == "ProlateSpheroidalPos" else set()
                        ctx.check(list(k for k in d if k not in extra) == expect, "introspect:asdict", f"{list(d)}", **w)
                        for k in comps:
                            ctx.check(d[k] is getattr(vec, k), "introspect:asdict", k, **w)
                    flt, typ = v.AttrFilter, type(vec)
                    got = {"fields": [f.name for f in dcl.fields(flt, vec)], "fields:class": [f.name for f in dcl.fields(flt, typ)],
                           "field_keys": list(dcl.field_keys(flt, vec)), "field_keys:class": list(dcl.field_keys(flt, typ)),
                           "field_items": [a for a, _ in dcl.field_items(flt, vec)], "asdict": list(dcl.asdict(flt, vec))}
                    for how, keys in got.items():
                        ctx.check(keys == expect, f"introspect:filter:{how}", f"{keys} != {expect}", **w)
                    ctx.check(all(x is getattr(vec, a) for a, x in dcl.field_items(flt, vec))
                              and [id(x) for x in dcl.field_values(flt, vec)] == [id(getattr(vec, a)) for a in expect],
                              "introspect:filter:values", f"{dcl.field_items(flt, vec)}", **w)
                    ctx.ev("introspect")
                # ---- identity with the stored values (constructor kept them)
                # ---- indexing
                for tag, idx in indices(rng, shp):
                    for form in ("tuple", "bare"):
                        if form == "bare" and len(idx) != 1:
                            continue
                        if ctx.quick() and rng.random() < 0.5:
                            continue
                        with ctx.scope("index", index=tag, **w):
                            o = vec[idx if form == "tuple" else idx[0]] if not isinstance(idx[0], list) else vec[np.array(idx[0])]
                            judge(ctx, c, o, lambda a: a[pure(idx, tr)], "index", index=tag, **w)
                            ctx.ev("index"); ctx.distinct("index", name, shp, pattern, tag)
                # chained
                if shp and shp[0]:
                    with ctx.scope("index:chain", **w):
                        o = vec[::-1][0]
                        judge(ctx, c, o, lambda a: a[::-1][0], "index:chain", **w)
                        ctx.ev("index")
                # ---- out of range integer: NumPy raises; JAX clamps -> library follows JAX (not claimed); too many indices must raise
                ctx.must_raise(lambda: vec[(0,) * (len(shp) + 1)], "index:too-many", msg="too many indices accepted", **w)
                ctx.ev("refused")
                # ---- reshape
                for rs in reshapes(shp):
                    for form in ("star", "tuple"):
                        with ctx.scope("reshape", to=rs, form=form, **w):
                            if form == "star" and rs == () or ctx.quick() and rng.random() < 0.5:
                                continue
                            o = vec.reshape(*rs) if form == "star" else vec.reshape(rs)
                            judge(ctx, c, o, lambda a: a.reshape(rs + a.shape[len(shp):] if tr else rs), "reshape", to=rs, **w)
                            ctx.ev("reshape"); ctx.distinct("reshape", name, shp, pattern, rs)
                n = int(np.prod(shp, dtype=int))
                ctx.must_raise(lambda: vec.reshape(n + 1), "reshape:size", msg="wrong size accepted", **w)
                for rs in [r for r in reshapes(shp) if len(r) == 2] if n else []:
                    # a column-major reshape of (2,3) to (2,3) is the identity: exercise the ones that really permute
                    if ctx.quick() and rs[::-1] != shp[-2:] and rng.random() < 0.7:
                        continue
                    with ctx.scope("reshape", order="F", to=rs, **w):
                        o = vec.reshape(*rs, order="F")
                        if tr:
                            f = lambda a: np.stack([a[..., j].reshape(rs, order="F") for j in range(a.shape[-1])], -1)
                        else:
                            f = lambda a: a.reshape(rs, order="F")
                        judge(ctx, c, o, f, "reshape:F", to=rs, **w)
                        ctx.ev("reshape")
                # ---- flatten / ravel
                for op in ("flatten", "ravel"):
                    with ctx.scope(op, **w):
                        judge(ctx, c, getattr(vec, op)(), lambda a: a.reshape((n,) + a.shape[len(shp):] if tr else (n,)), op, **w)
                        ctx.ev("flatten"); ctx.distinct(op, name, shp, pattern)
                # ---- transposes
                with ctx.scope("T", **w):
                    judge(ctx, c, vec.T, lambda a: np.transpose(a, (*range(len(shp))[::-1], len(shp))) if tr else a.T, "T", **w)
                    ctx.ev("transpose"); ctx.distinct("T", name, shp, pattern)
                if len(shp) >= 2:
                    with ctx.scope("mT", **w):
                        judge(ctx, c, vec.mT, lambda a: np.swapaxes(a, len(shp) - 2, len(shp) - 1), "mT", **w)
                        ctx.ev("transpose"); ctx.distinct("mT", name, shp, pattern)
                else:
                    ctx.must_raise(lambda: vec.mT, "mT:refuse", msg="mT of <2 dimensions accepted", **w)
                    ctx.ev("refused")
                # ---- moving to a device, element type (values kept; a narrower type only rounds)
                with ctx.scope("to_device", **w):
                    judge(ctx, c, vec.to_device(jax.devices()[0]), lambda a: a, "to_device", **w)
                    ctx.ev("device")
                if pattern == "full" and (name in B.POS or name == "CartesianPosND") and not name.startswith("TwoSphere"):  # the others have no aval
                    with ctx.scope("element_type", **w):
                        o = qlax.convert_element_type(vec, np.float32)
                        ctx.check(type(o) is type(vec) and tuple(o.shape) == shp and {a: str(b) for a, b in o.units.items()} == {a: str(b) for a, b in vec.units.items()},
                                  "element_type:kind", f"{o}", **w)
                        for a in expect:
                            x, y = np.asarray(getattr(vec, a).value), np.asarray(getattr(o, a).value)
                            ctx.close(y, x, 3e-7 * np.abs(x) + 1e-37, "element_type:value", a, **w)
                        ctx.ev("device")
                # ---- iteration
                with ctx.scope("iterate", **w):
                    if shp:
                        items = []
                        for it in vec:
                            items.append(it)
                            if len(items) > 50:
                                break
                        ctx.check(len(items) == shp[0], "iterate:length", f"{len(items)} items", **w)
                        for i, it in enumerate(items[:shp[0]]):
                            judge(ctx, c, it, lambda a: a[i], "iterate", i=i, **w)
                        ctx.ev("iterate")
                    else:
                        ctx.must_raise(lambda: list(vec), "iterate:scalar", msg="iterating a scalar vector", **w)
                        ctx.ev("refused")
                # ---- broadcast_to
                if name in B.POS and not name.startswith("TwoSphere") or name == "CartesianPosND" or \
                        name.startswith("Cartesian") and name in B.FIELDS:
                    for lead in ((4,), (2, 2)):
                        tgt = lead + shp
                        ncomp = c.ref[comps[0]].shape[-1] if tr else len(comps)
                        with ctx.scope("broadcast_to", to=tgt, **w):
                            o = jnp.broadcast_to(vec, tgt + (ncomp,))
                            judge(ctx, c, o, lambda a: np.broadcast_to(a, tgt + a.shape[len(shp):] if tr else tgt), "broadcast_to", to=tgt, **w)
                            ctx.ev("broadcast_to"); ctx.distinct("bt", name, shp, pattern, lead)
                # the vector itself was not changed by any of it
                with ctx.scope("unchanged", **w):
                    judge(ctx, c, vec, lambda a: a, "unchanged", **w)
                ctx.sample(cls=name, shape=shp, pattern=pattern)
                # assignment is refused
                def assign():
                    vec[0] = vec
                ctx.must_raise(assign, "assign", msg="item assignment accepted", **w)
                ctx.ev("refused")
    return run


def reshape_prim_case(ctx):
    """jnp.reshape on fully shaped vectors (leading axis = components x first batch axis, documented)."""
    import quaxed.numpy as jnp
    for name in B.POS:
        if name == "TwoSpherePos":
            continue
        with ctx.scope("jnp.reshape", cls=name):
            c = Case(name, ctx.rng, (2, 3), "full")
            nc = len(c.ref)
            o = jnp.reshape(c.vec, (nc * 3, 2))
            judge(ctx, c, o, lambda a: a.reshape(3, 2), "jnp.reshape", cls=name)
            ctx.ev("reshape"); ctx.distinct("jnpreshape", name)


def cases(tier):
    out = []
    for i in range(1 if tier == "quick" else 12):
        out += [(f"{n}:{i}", case(n)) for n in NAMES]
    out.append(("jnp.reshape", reshape_prim_case))
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

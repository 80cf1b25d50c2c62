"""C10: units of the inputs never matter; uconvert changes units only."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import dataclasses
import numpy as np
from mon import model as M, gen as G, runtime as R, build as B, programs as P

PROP = "C10"
RULE = ("a case either converts one vector class with random unit systems, unit mappings (string or dimension keys, extra keys), "
        "or the consistent option and checks unit, physical value, component type, attributes and shape of every component, or runs "
        "one public program on operands with the same physical values stored in different random units and compares the physical "
        "results; distinct = (class, form, units) and (program, unit assignment)")
ASSUMPTIONS = ["a unit mapping covers the dimensions of all components", "prolate Delta is an attribute and keeps its own unit"]
REQUIRED = {"uconvert": 300, "program": 300, "consistent": 40}
KINDS = {M.LEN: ["kpc", "km", "m", "AU", "lyr", "cm"], M.ANG: ["rad", "deg", "arcmin", "mas", "hourangle"], "time": ["Myr", "s", "yr", "Gyr"]}
SYS = [("kpc", "Myr", "solMass", "rad"), ("pc", "yr", "kg", "deg"), ("m", "s", "kg", "arcsec"), ("AU", "Gyr", "g", "mas"), ("lyr", "s", "solMass", "hourangle")]


def want_unit(u, kind, order, length, angle, time):
    base = {M.LEN: length, M.ANG: angle, M.AREA: f"{length}2"}[kind]
    return u.unit(base) / u.unit(time) ** order if order else u.unit(base)


def dims():
    """(kind, order) -> mapping key"""
    return {(M.LEN, 0): "length", (M.ANG, 0): "angle", (M.AREA, 0): "area", (M.LEN, 1): "speed", (M.ANG, 1): "angular frequency",
            (M.AREA, 1): "kinematic viscosity", (M.LEN, 2): "acceleration", (M.ANG, 2): "angular acceleration", (M.AREA, 2): "m2/s2"}


def objects(ctx, name):
    """Instances of one class with random units per component, with its (field, kind, order) list."""
    u, v = G.U(), G.vecs()
    rng = ctx.rng
    shp = G.pick(rng, [(), (3,), (2, 2), (2, 1, 3), (0,)])
    if name in B.ND:
        f, o = B.ND[name]
        un = G.pick(rng, {0: G.LENU, 1: G.SPDU, 2: G.ACCU}[o])
        return getattr(v, name)(u.Quantity(rng.normal(size=shp + (4,)), un)), [(f, M.LEN, o)]
    if name == "FourVector":
        q = v.CartesianPos3D.from_(u.Quantity(rng.normal(size=shp + (3,)), "kpc"))
        return v.FourVector(t=u.Quantity(rng.normal(size=shp), "Myr"), q=q, c=u.Quantity(0.3, "kpc/Myr")), None
    if name == "CartesianGeneric3D":
        return v.CartesianGeneric3D(*[u.Quantity(rng.normal(size=shp), G.pick(rng, G.LENU)) for _ in "xyz"]), [(k, M.LEN, 0) for k in "xyz"]
    order, comps = B.FIELDS[name]
    vals = B.sane(rng, name, shp)
    units, use = {}, {}
    for k, kind in comps:
        un = G.pick(rng, G.units_for(kind, order))
        f = M.factor(B.unit_of(name, k), un)
        units[k], use[k] = un, vals[k] * f
    return B.build(name, use, units), [(k, kind, order) for k, kind in comps]


def snapshot(x):
    return {f.name: getattr(x, f.name) for f in dataclasses.fields(x)}


def judge(ctx, out, obj, spec, req, mech, **w):
    ctx.check(type(out) is type(obj), mech + ":type", f"{type(out).__name__} from {type(obj).__name__}", **w)
    ctx.check(out.shape == obj.shape, mech + ":shape", f"{out.shape} from {obj.shape}", **w)
    a, b = snapshot(out), snapshot(obj)
    names = {k for k, _, _ in spec}
    for k in b:
        if k not in names:  # attributes
            same = type(a[k]) is type(b[k]) and str(a[k].unit) == str(b[k].unit) and np.array_equal(np.asarray(a[k].value), np.asarray(b[k].value))
            ctx.check(same, mech + ":attribute", f"{k}: {a[k]} from {b[k]}", **w)
    for k, kind, order in spec:
        un = req[k]
        ctx.check(a[k].unit == un, mech + ":unit", f"{k}: got {a[k].unit}, requested {un}", **w)
        ctx.check(type(a[k]).__name__.split("[")[0] == type(b[k]).__name__.split("[")[0], mech + ":component-type", f"{k}: {type(a[k])} from {type(b[k])}", **w)
        f = M.factor(str(b[k].unit), str(un))
        x = np.asarray(b[k].value, dtype=float) * f
        S = np.max(np.abs(x), initial=0.0)
        ctx.close(np.asarray(a[k].value), x, 1e-13 * S + 1e-300, mech, f"{k}", **w)


def uc_case(name):
    def run(ctx):
        u, v = G.U(), G.vecs()
        import coordinax as cx
        from astropy.units import get_physical_type

        for rep in range(3 if ctx.quick() else 12):
            obj, spec = objects(ctx, name)
            if spec is None:
                return
            for form in ("usys", "map", "mapdim", "consistent", "func"):
                l, a, t = (G.pick(ctx.rng, KINDS[k]) for k in (M.LEN, M.ANG, "time"))
                m = G.pick(ctx.rng, SYS)
                if form == "usys":
                    l, t, _, a = m
                req = {k: want_unit(u, kind, o, l, a, t) for k, kind, o in spec}
                D = dims()
                mapping = {}
                for k, kind, o in spec:
                    key = D[(kind, o)]
                    mapping[get_physical_type(u.unit(key)) if key == "m2/s2" else key] = req[k]
                if form != "usys" and ctx.rng.random() < 0.5:
                    mapping.setdefault("mass", u.unit("kg"))
                w = dict(cls=name, form=form, frm={k: str(getattr(obj, k).unit) for k, _, _ in spec}, to={k: str(x) for k, x in req.items()})
                with ctx.scope(f"uconvert:{name}", **w):
                    if form == "usys":
                        out = obj.uconvert(u.unitsystem(*m))
                    elif form == "map":
                        items = [(k, str(x) if ctx.rng.random() < 0.5 and "/" not in str(x) else x) for k, x in mapping.items()]
                        if ctx.rng.random() < 0.5:
                            items = items[::-1]
                        out = obj.uconvert(dict(items))
                    elif form == "mapdim":
                        out = obj.uconvert({u.dimension(k) if isinstance(k, str) else k: x for k, x in mapping.items()})
                    elif form == "func":
                        out = u.uconvert(u.unitsystem(*m), obj)
                        l, t, _, a = m
                        req = {k: want_unit(u, kind, o, l, a, t) for k, kind, o in spec}
                    else:
                        first, req = {}, {}
                        for k, kind, o in spec:
                            req[k] = first.setdefault((kind, o), getattr(obj, k).unit)
                        out = obj.uconvert(cx.vecs.ToUnitsOptions.consistent)
                        ctx.ev("consistent")
                    ctx.ev("uconvert")
                    ctx.distinct(name, form, str(sorted(w["to"].items())))
                    judge(ctx, out, obj, spec, req, f"uconvert:{name}", **w)
                    if rep == 0:
                        back = out.uconvert({(D[(kind, o)] if D[(kind, o)] != "m2/s2" else get_physical_type(u.unit("m2/s2"))): getattr(obj, spec[-1][0]).unit
                                             if (kind, o) == spec[-1][1:] else getattr(obj, [s for s in spec if s[1:] == (kind, o)][0][0]).unit for k, kind, o in spec})
                        pa, pb = P.phys(back), P.phys(obj)
                        for key in pb:
                            if pb[key][1].dtype.kind == "f":
                                ctx.close(pa[key][1], pb[key][1], 1e-12 * np.max(np.abs(pb[key][1]), initial=0.0) + 1e-300, f"uconvert:{name}:back", key, **w)
    return run


def dist_case(ctx):
    """Components of special kinds keep their kind."""
    u, v = G.U(), G.vecs()
    from coordinax.angle import Angle
    from coordinax.distance import Distance, Parallax, DistanceModulus

    ang = lambda x: Angle(x, "rad")
    for d, tag in ((Distance(np.array([1.0, 2.0]), "kpc"), "Distance"), (Parallax(np.array([1.0, 2.0]), "mas"), "Parallax"), (u.Quantity(np.array([1.0, 2.0]), "kpc"), "q")):
        for cls, kw in (("SphericalPos", dict(r=d, theta=ang(1.0), phi=ang(2.0))), ("LonLatSphericalPos", dict(lon=ang(1.0), lat=ang(0.4), distance=d)),
                        ("MathSphericalPos", dict(r=d, theta=ang(1.0), phi=ang(2.0))), ("PolarPos", dict(r=d, phi=ang(1.0))) if tag != "Parallax" else ("SphericalPos", dict(r=d, theta=ang(1.0), phi=ang(2.0)))):
            with ctx.scope("uconvert:kinds", cls=cls, tag=tag):
                p = getattr(v, cls)(**kw)
                out = p.uconvert({"length": "pc", "angle": "deg"})
                for f in dataclasses.fields(p):
                    a, b = getattr(out, f.name), getattr(p, f.name)
                    ctx.check(type(a) is type(b), "uconvert:kinds", f"{cls}.{f.name}: {type(a)} from {type(b)}", tag=tag)
                    ctx.close(np.asarray(a.value), np.asarray(b.value) * M.factor(str(b.unit), str(a.unit)), 1e-12 * float(np.max(np.abs(np.asarray(a.value)))),
                              "uconvert:kinds:value", f"{cls}.{f.name}", tag=tag)
                    ctx.check(str(a.unit) == ("pc" if u.dimension_of(b) == u.dimension("length") else "deg"), "uconvert:kinds:unit", f"{cls}.{f.name}: {a.unit}", tag=tag)
                ctx.ev("uconvert")


_lib = []


def lib():
    if not _lib:
        _lib.extend(P.library())
    return _lib


def prog_case(name):
    def run(ctx):
        p = {q.name: q for q in lib()}[name]
        seed = int(ctx.rng.integers(1 << 30))
        for shp in ([()] if not p.batch else [(3,)] if ctx.quick() else [(), (3,), (2, 2)]):
            ref = None
            for k in range(3 if ctx.quick() else 8):
                w = dict(program=name, shape=shp, assignment=k)
                with ctx.scope(f"program:{name}", **w):
                    ops = P.operands(np.random.default_rng(seed), p, shp, None if k == 0 else ctx.rng)
                    out = P.phys(p.fn(*ops))
                    ctx.ev("program")
                    ctx.distinct(name, shp, str(P.units(ops)))
                    if k == 0:
                        ref = out
                    else:
                        P.compare(ctx, out, ref, p.tol, f"program:{name}", units=str(P.units(ops))[:600], **w)
    return run


def cases(tier):
    out = [("kinds", dist_case)]
    for n in list(B.FIELDS) + list(B.ND) + ["CartesianGeneric3D"]:
        out.append((f"uconvert:{n}", uc_case(n)))
    out += [(f"program:{n}", prog_case(n)) for n in [p.name for p in lib()]]
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

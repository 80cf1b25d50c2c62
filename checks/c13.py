"""C13: ICRS <-> Galactocentric transforms against the rigid-motion model and astropy; null frame refuses."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import model as M, gen as G, runtime as R

PROP = "C13"
RULE = ("a case draws Galactocentric frames (random galactic-centre direction/distance, height, roll, solar velocity, in any unit and parameter "
        "type; defaults included) and transforms random positions and (position, velocity) pairs both ways, between two frames and through "
        "chains, comparing with an affine model written from the definition and with astropy's own ICRS/Galactocentric machinery; distinct = "
        "(direction, input form, parameter style)")
ASSUMPTIONS = ["|z_sun| < distance of the galactic centre (the tilt is an arcsine)", "velocities are floating point (differentiation needs it)",
               "the galactic-centre distance is given as a length", "supported inputs: 3-component length Quantity, (position, velocity) Quantities, (position, velocity) vectors, unbatched"]
REQUIRED = {"position": 200, "velocity": 150, "roundtrip": 100, "twoframes": 20, "astropy": 20, "refused": 12, "selfid": 10, "simplify": 10}


class Frame:
    pass


def rand_frame(rng, style=None):
    import coordinax.frames as cf
    from coordinax.angle import Angle
    from coordinax.distance import Distance
    v = G.vecs()
    f = Frame()
    f.style = style or G.pick(rng, ["random", "random", "default", "one", "special"])
    f.lon, f.lat, f.d, f.roll, f.z = np.deg2rad(266.4051), np.deg2rad(-28.936175), 8.122, 0.0, 0.0208
    f.vs = np.array([12.9, 245.6, 7.78]) * M.factor("km/s", "kpc/Myr")
    names = {"random": ["galcen", "roll", "z_sun", "galcen_v_sun"], "default": [], "special": ["galcen", "roll", "z_sun", "galcen_v_sun"],
             "one": [G.pick(rng, ["galcen", "roll", "z_sun", "galcen_v_sun"])]}[f.style]
    kw = {}
    sp = f.style == "special"
    if "galcen" in names:
        f.lon = G.pick(rng, [0.0, np.pi / 2, np.pi, 3 * np.pi / 2]) if sp else rng.uniform(0, 2 * np.pi)
        f.lat = G.pick(rng, [0.0, np.pi / 2, -np.pi / 2]) if sp else rng.uniform(-np.pi / 2, np.pi / 2)
        f.d = 10 ** rng.uniform(-1, 2)
        un = G.pick(rng, ["deg", "rad", "arcmin", "hourangle"])
        un2 = G.pick(rng, ["deg", "rad", "arcsec"])
        ul = G.pick(rng, ["kpc", "pc", "km", "AU"])
        lim = lambda x, hi: float(np.clip(x, -hi, hi))
        lon = G.quantity(f.lon * M.factor("rad", un), un)
        latv = lim(f.lat * M.factor("rad", un2), {"deg": 90.0, "rad": np.pi / 2, "arcsec": 324000.0}[un2])
        lat = G.quantity(latv, un2)
        f.lat = latv * M.factor(un2, "rad")
        dq = G.quantity(f.d * M.factor("kpc", ul), ul)
        if rng.random() < 0.6:
            lon, lat, dq = Angle(lon.value, lon.unit), Angle(lat.value, lat.unit), Distance(dq.value, dq.unit)
        g = v.LonLatSphericalPos(lon=lon, lat=lat, distance=dq)
        kw["galcen"] = g if rng.random() < 0.7 else {"lon": lon, "lat": lat, "distance": dq}
    if "roll" in names:
        f.roll = G.pick(rng, [0.0, np.pi, M.ROLL0]) if sp else rng.uniform(-np.pi, np.pi)
        un = G.pick(rng, ["deg", "rad", "arcmin"])
        a = G.quantity(f.roll * M.factor("rad", un), un)
        kw["roll"] = Angle(a.value, un) if rng.random() < 0.4 else a
    if "z_sun" in names:
        f.z = G.pick(rng, [0.0, 0.5 * f.d, -0.5 * f.d]) if sp else f.d * rng.uniform(-0.2, 0.2)
        un = G.pick(rng, ["kpc", "pc", "AU"])
        z = G.quantity(f.z * M.factor("kpc", un), un)
        kw["z_sun"] = Distance(z.value, un) if rng.random() < 0.2 and f.z >= 0 else z
    if "galcen_v_sun" in names:
        f.vs = np.zeros(3) if sp and rng.random() < 0.5 else rng.normal(size=3) * 0.3
        un = G.pick(rng, ["km/s", "kpc/Myr", "pc/yr"])
        q = G.quantity(f.vs * M.factor("kpc/Myr", un), un)
        kw["galcen_v_sun"] = v.CartesianVel3D.from_(q) if rng.random() < 0.6 else q
    f.kw = kw
    how = rng.random()
    f.lib = cf.Galactocentric(**kw) if how < 0.6 else cf.Galactocentric.from_(kw) if how < 0.8 else cf.Galactocentric.from_(cf.Galactocentric(**kw))
    f.A, f.b = M.galcen_matrix(f.lon, f.lat, f.d, f.roll, f.z)
    return f


def fwd(f, X, V=None):
    return f.A @ X + f.b, None if V is None else f.A @ V + f.vs


def back(f, X, V=None):
    return f.A.T @ (X - f.b), None if V is None else f.A.T @ (V - f.vs)


def point(rng):
    X = rng.normal(size=3)
    X *= 10 ** rng.uniform(-3, 4) / np.sqrt((X**2).sum())
    if rng.random() < 0.15:
        X = X * np.array(G.pick(rng, [[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 0], [1, 1, 0]]))
    return X, rng.normal(size=3) * 10 ** rng.uniform(-3, 1)


def mkinput(rng, form, X, V):
    """Library arguments, plus the X and V they exactly denote."""
    v = G.vecs()
    uq, up = G.pick(rng, ["kpc", "pc", "km", "AU"]), G.pick(rng, ["km/s", "kpc/Myr", "pc/yr"])
    q, p = G.quantity(X * M.factor("kpc", uq), uq), G.quantity(V * M.factor("kpc/Myr", up), up)
    if form == "q":
        return (q,), X, None, "q"
    if form == "qp":
        return (q, p), X, V, "qp"
    name = G.pick(rng, M.POS3)
    vn = G.pick(rng, [M.velname(name), "CartesianVel3D"] + (["LonCosLatSphericalVel"] if name == "LonLatSphericalPos" else []))
    X = np.where(np.abs(X) <= 0.2 * np.sqrt((X**2).sum()), 0.3 * np.sqrt((X**2).sum()) + 1e-3, X)  # away from coordinate singularities
    D = 0.3 * np.sqrt((X**2).sum()) if name.startswith("Prolate") else None
    pos, X, _ = G.make_pos(rng, name, X, D, disttype="q")
    if vn == "CartesianVel3D":
        return (pos, v.CartesianVel3D.from_(p)), X, V, name
    c = M.coords_of(name, X, D)
    rates = M.coord_vel(name, c, V, D)
    vel, bk = G.make_diff(rng, M.posname(vn), 1, rates, coslat=np.cos(c["lat"]) if "CosLat" in vn else None)
    return (pos, vel), X, M.cart_vel(M.posname(vn), c, bk, D), name


def readout(ctx, out, form_, mech, **w):
    X = V = None
    if form_ == "q":
        ctx.check(type(out).__name__.startswith("Quantity") and out.shape == (3,), mech + ":form", f"{out}", **w)
        return np.asarray(out.value) * M.factor(str(out.unit), "kpc"), None
    ok = isinstance(out, tuple) and len(out) == 2
    ctx.check(ok, mech + ":form", f"{type(out)}", **w)
    if form_ == "qp":
        return np.asarray(out[0].value) * M.factor(str(out[0].unit), "kpc"), np.asarray(out[1].value) * M.factor(str(out[1].unit), "kpc/Myr")
    ctx.check([type(o).__name__ for o in out] == ["CartesianPos3D", "CartesianVel3D"], mech + ":form", f"{[type(o) for o in out]}", **w)
    return M.cart(out[0]), M.vel_cart(out[1], M.cart(out[0]))


def judge(ctx, got, want, S, Sv, mech, cond=1.0, **w):
    ctx.close(got[0], want[0], 3e-12 * S * cond, mech + ":position", f"{w}")
    ctx.ev("position")
    if want[1] is not None:
        ctx.close(got[1], want[1], 1e-11 * Sv * cond, mech + ":velocity", f"{w}")
        ctx.ev("velocity")


def xform(ctx, op, f, d, form, mech, X, V, **w):
    rng = ctx.rng
    args, X, V, rep = mkinput(rng, form, X, V)
    w.update(form=form, rep=rep, style=f.style)
    cond = 1e5 if rep.startswith("Prolate") else 30.0 if form == "vec" else 1.0
    S = np.sqrt((X**2).sum()) + f.d
    Sv = (0 if V is None else np.abs(V).max()) + np.abs(f.vs).max() + 1e-300
    before = repr(args)
    out = op(*args)
    got = readout(ctx, out, form, mech, **w)
    judge(ctx, got, (fwd if d == "fwd" else back)(f, X, V), S, Sv, mech, cond, **w)
    ctx.check(repr(args) == before, mech + ":mutated", "operands changed", **w)
    b = op.inverse(*(out if isinstance(out, tuple) else (out,)))
    judge(ctx, readout(ctx, b, form, mech + ":inverse", **w), (X, V), S, Sv, mech + ":roundtrip", 3 * cond, **w)
    ctx.ev("roundtrip")
    ctx.distinct(d, form, rep, f.style)
    ctx.sample(direction=d, form=form, rep=rep, style=f.style, X=X.tolist())


def one_case(i):
    def run(ctx):
        import coordinax.frames as cf
        rng = ctx.rng
        for _ in range(2 if ctx.quick() else 10):
            f = rand_frame(rng)
            icrs = cf.ICRS()
            for d in ("fwd", "back"):
                a, b = (icrs, f.lib) if d == "fwd" else (f.lib, icrs)
                with ctx.scope(f"{d}", style=f.style):
                    op = cf.frame_transform_op(a, b)
                    op2 = a.transform_op(b)
                    ctx.check(op.is_inertial, f"{d}:is_inertial", "")
                    for form in ("q", "q", "q", "qp", "vec"):
                        for _ in range(1 if ctx.quick() else 2):
                            X, V = point(rng)
                            xform(ctx, op if rng.random() < 0.5 else op2, f, d, form, f"{d}:{form}", X, V)
                    # opposite transform = inverse transform
                    X, V = point(rng)
                    args, X, V, _ = mkinput(rng, "qp", X, V)
                    o = cf.frame_transform_op(b, a)(*op(*args))
                    judge(ctx, readout(ctx, o, "qp", "reverse"), (X, V), np.sqrt((X**2).sum()) + f.d, np.abs(V).max() + np.abs(f.vs).max(), f"{d}:reverse", 3)
                    ctx.ev("roundtrip")
    return run


def two_case(i):
    """GCF1 -> GCF2 equals GCF1 -> ICRS -> GCF2, and chains close."""
    def run(ctx):
        import coordinax.frames as cf
        rng = ctx.rng
        for _ in range(1 if ctx.quick() else 8):
            f = rand_frame(rng, G.pick(rng, ["random", "default", "one"]))
            g = rand_frame(rng, G.pick(rng, ["random", "one"]))
            with ctx.scope("twoframes", styles=(f.style, g.style)):
                op = cf.frame_transform_op(f.lib, g.lib)
                for form in ("qp", "vec"):
                    X, V = point(rng)
                    args, X, V, rep = mkinput(rng, form, X, V)
                    want = fwd(g, *back(f, X, V))
                    S, Sv = np.sqrt((X**2).sum()) + f.d + g.d, np.abs(V).max() + np.abs(f.vs).max() + np.abs(g.vs).max()
                    c = 1e5 if rep.startswith("Prolate") else 30.0
                    w = dict(form=form, rep=rep, styles=(f.style, g.style), changed=list(g.kw))
                    out = op(*args)
                    judge(ctx, readout(ctx, out, form, "twoframes", **w), want, S, Sv, "twoframes", c, **w)
                    judge(ctx, readout(ctx, op.inverse(*out), form, "twoframes", **w), (X, V), S, Sv, "twoframes:inverse", 3 * c, **w)
                    judge(ctx, readout(ctx, op.simplify()(*args), form, "twoframes", **w), want, S, Sv, "twoframes:simplify", c, **w)
                    ctx.ev("simplify")
                    # around the loop ICRS -> g -> f -> ICRS on the Galactocentric side
                    o = cf.frame_transform_op(g.lib, f.lib)(*out)
                    judge(ctx, readout(ctx, o, form, "loop", **w), (X, V), S, Sv, "twoframes:loop", 3 * c, **w)
                    o = cf.frame_transform_op(cf.ICRS(), g.lib)(*cf.frame_transform_op(f.lib, cf.ICRS())(*args))
                    judge(ctx, readout(ctx, o, form, "via", **w), want, S, Sv, "twoframes:via-icrs", 3 * c, **w)
                    ctx.ev("twoframes")
                    ctx.distinct("two", form, f.style, tuple(g.kw))
            with ctx.scope("selfid", style=f.style):
                same = cf.Galactocentric(**f.kw)
                for a, b in ((f.lib, f.lib), (f.lib, same), (cf.ICRS(), cf.ICRS())):
                    X, V = point(rng)
                    args, X, V, _ = mkinput(rng, "qp", X, V)
                    op = cf.frame_transform_op(a, b)
                    out = op(*args)
                    judge(ctx, readout(ctx, out, "qp", "selfid"), (X, V), np.sqrt((X**2).sum()) + f.d, np.abs(V).max() + np.abs(f.vs).max(), "selfid", 3)
                    s = op.simplify()(*args)
                    judge(ctx, readout(ctx, s, "qp", "selfid"), (X, V), np.sqrt((X**2).sum()) + f.d, np.abs(V).max() + np.abs(f.vs).max(), "selfid:simplify", 3)
                    ctx.ev("selfid")
    return run


def astropy_case(ctx):
    """The same transform done by astropy itself."""
    import astropy.coordinates as ac, astropy.units as au
    import coordinax.frames as cf
    rng = ctx.rng
    for _ in range(12 if ctx.quick() else 150):
        f = rand_frame(rng, G.pick(rng, ["random", "default", "one"]))
        with ctx.scope("astropy", style=f.style):
            af = ac.Galactocentric(galcen_coord=ac.ICRS(ra=f.lon * au.rad, dec=f.lat * au.rad), galcen_distance=f.d * au.kpc, roll=f.roll * au.rad, z_sun=f.z * au.kpc,
                                   galcen_v_sun=ac.CartesianDifferential(f.vs * au.kpc / au.Myr))
            for d in ("fwd", "back"):
                X, V = point(rng)
                X = X + 1e-3
                rep = ac.CartesianRepresentation(X * au.kpc, differentials=ac.CartesianDifferential(V * au.kpc / au.Myr))
                if d == "fwd":
                    o = ac.ICRS(rep).transform_to(af).cartesian
                    op = cf.frame_transform_op(cf.ICRS(), f.lib)
                else:
                    o = af.realize_frame(rep).transform_to(ac.ICRS()).cartesian
                    op = cf.frame_transform_op(f.lib, cf.ICRS())
                args, X, V, _ = mkinput(rng, "qp", X, V)
                got = readout(ctx, op(*args), "qp", "astropy")
                want = (o.xyz.to_value(au.kpc), o.differentials["s"].d_xyz.to_value(au.kpc / au.Myr))
                judge(ctx, got, want, np.sqrt((X**2).sum()) + f.d, np.abs(V).max() + np.abs(f.vs).max(), f"astropy:{d}", 1e2, style=f.style)
                ctx.ev("astropy")


def vmap_case(ctx):
    import jax
    import coordinax.frames as cf
    rng = ctx.rng
    for _ in range(2 if ctx.quick() else 10):
        f = rand_frame(rng, "random")
        for d in ("fwd", "back"):
            op = cf.frame_transform_op(cf.ICRS(), f.lib) if d == "fwd" else cf.frame_transform_op(f.lib, cf.ICRS())
            X, V = rng.normal(size=(5, 3)) * 8, rng.normal(size=(5, 3)) * 0.3
            q, p = G.quantity(X, "kpc"), G.quantity(V, "kpc/Myr")
            with ctx.scope(f"vmap:{d}"):
                a, b = jax.jit(jax.vmap(op))(q, p)
                g = (np.asarray(a.value) * M.factor(str(a.unit), "kpc"), np.asarray(b.value) * M.factor(str(b.unit), "kpc/Myr"))
                h = fwd if d == "fwd" else back
                wx, wv = zip(*(h(f, x, y) for x, y in zip(X, V)))
                judge(ctx, g, (np.array(wx), np.array(wv)), 30 + f.d, 3 + np.abs(f.vs).max(), f"vmap:{d}", 3)
                z = jax.vmap(op)(q)
                ctx.close(np.asarray(z.value) * M.factor(str(z.unit), "kpc"), np.array(wx), 1e-11 * (30 + f.d), f"vmap:{d}:q", "")
            with ctx.scope(f"jit-frame:{d}"):
                o = jax.jit(lambda fr, x, y: (cf.frame_transform_op(cf.ICRS(), fr) if d == "fwd" else cf.frame_transform_op(fr, cf.ICRS()))(x, y))(f.lib, q[0], p[0])
                judge(ctx, readout(ctx, o, "qp", "jit"), h(f, X[0], V[0]), 30 + f.d, 3 + np.abs(f.vs).max(), f"jit-frame:{d}", 3)


def refuse_case(ctx):
    import coordinax.frames as cf
    import coordinax.ops as co
    u = G.U()

    class Custom(cf.AbstractReferenceFrame):
        pass

    n = cf.NoFrame()
    for a, b in [(n, cf.ICRS()), (cf.ICRS(), n), (n, n), (n, cf.Galactocentric()), (cf.Galactocentric(), n), (n, Custom()), (Custom(), n)]:
        ctx.must_raise(lambda: cf.frame_transform_op(a, b), f"nullframe:{type(a).__name__}:{type(b).__name__}", cf.FrameTransformError)
        ctx.must_raise(lambda: a.transform_op(b), f"nullframe:method:{type(a).__name__}:{type(b).__name__}", cf.FrameTransformError)
        ctx.ev("refused", 2)
    for a, b in [(Custom(), cf.ICRS()), (cf.ICRS(), Custom()), (Custom(), Custom())]:
        ctx.must_raise(lambda: cf.frame_transform_op(a, b), "unknown-frame")
        ctx.ev("refused")
    op = cf.frame_transform_op(cf.ICRS(), cf.Galactocentric())
    for bad in (u.Quantity([1.0, 2, 3], "s"), u.Quantity([1.0, 2], "kpc"), u.Quantity([1.0, 2, 3, 4], "kpc")):
        ctx.must_raise(lambda: op(bad), "refuse:q", msg=str(bad))
        ctx.must_raise(lambda: op.inverse(bad), "refuse:q-inverse", msg=str(bad))
        ctx.ev("refused", 2)
    ctx.must_raise(lambda: op(u.Quantity([1.0, 2, 3], "kpc"), u.Quantity([1.0, 2, 3], "kpc")), "refuse:p")
    for kw in (dict(roll=u.Quantity(1.0, "kpc")), dict(z_sun=u.Quantity(1.0, "deg")), dict(galcen_v_sun=u.Quantity([1.0, 2, 3], "kpc")), dict(galcen=u.Quantity([1.0, 2, 3], "s"))):
        ctx.must_raise(lambda: cf.Galactocentric(**kw), "refuse:param:" + next(iter(kw)))
        ctx.ev("refused")
    ctx.must_raise(lambda: cf.ICRS.from_(cf.Galactocentric()), "refuse:icrs-from-gcf")
    ctx.must_raise(lambda: cf.Galactocentric.from_(cf.ICRS()), "refuse:gcf-from-icrs")
    ctx.check(isinstance(cf.frame_transform_op(cf.ICRS(), cf.ICRS()), co.Identity), "icrs-self", "")
    g = cf.Galactocentric()
    ctx.check(cf.Galactocentric.from_(g) is g, "from_-self", "")
    # documented defaults
    w = (M.val(g.galcen.lon, "deg"), M.val(g.galcen.lat, "deg"), M.val(g.galcen.distance, "kpc"), M.val(g.roll, "deg"), M.val(g.z_sun, "pc"), M.val(g.roll0, "deg"))
    ctx.close(np.array(w), np.array([266.4051, -28.936175, 8.122, 0, 20.8, 58.5986320306]), 1e-9, "defaults", "default frame parameters")
    ctx.close(M.vel_cart(g.galcen_v_sun, np.zeros(3)) * M.factor("kpc/Myr", "km/s"), np.array([12.9, 245.6, 7.78]), 1e-9, "defaults:v_sun", "")


def cases(tier):
    q = tier == "quick"
    return [(f"one:{i}", one_case(i)) for i in range(12 if q else 60)] + [(f"two:{i}", two_case(i)) for i in range(12 if q else 40)] + \
        [("astropy", astropy_case), ("vmap", vmap_case), ("refuse", refuse_case)]


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

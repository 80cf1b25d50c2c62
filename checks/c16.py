"""C16: exchanging vectors, distances, angles and frames with astropy keeps the geometry."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import build as B, model as M, gen as G, runtime as R

PROP = "C16"
RULE = ("a case builds one object with known numbers (random units, shapes, dtypes, angle branches, Distance/Parallax/DistanceModulus/Angle components), "
        "converts it to or from astropy and compares the class, every component as a physical value and the Cartesian point or velocity evaluated by "
        "astropy itself with the model; round trips must give the original back; distinct = (direction, class pair, unit tuple, shape)")
ASSUMPTIONS = ["supported pairs: the four 3D positions and five 3D velocities with an astropy class of the same meaning; cross construction into those classes",
               "astropy's own represent_as/transform_to is a second reference next to the model"]
REQUIRED = {"out": 80, "in": 150, "cross": 120, "roundtrip": 300, "velocity": 100, "quantity": 100, "distance": 60, "angle": 60, "frame": 12}
SHAPES = [(), (4,), (2, 3), (2, 1, 2), (1,)]
# coordinax class -> (astropy representation, {cx field: astropy field})
POSMAP = {"CartesianPos3D": ("CartesianRepresentation", dict(x="x", y="y", z="z")),
          "CylindricalPos": ("CylindricalRepresentation", dict(rho="rho", phi="phi", z="z")),
          "SphericalPos": ("PhysicsSphericalRepresentation", dict(r="r", theta="theta", phi="phi")),
          "LonLatSphericalPos": ("SphericalRepresentation", dict(lon="lon", lat="lat", distance="distance"))}
VELMAP = {"CartesianVel3D": ("CartesianDifferential", "CartesianPos3D", dict(d_x="d_x", d_y="d_y", d_z="d_z")),
          "CylindricalVel": ("CylindricalDifferential", "CylindricalPos", dict(d_rho="d_rho", d_phi="d_phi", d_z="d_z")),
          "SphericalVel": ("PhysicsSphericalDifferential", "SphericalPos", dict(d_r="d_r", d_theta="d_theta", d_phi="d_phi")),
          "LonLatSphericalVel": ("SphericalDifferential", "LonLatSphericalPos", dict(d_lon="d_lon", d_lat="d_lat", d_distance="d_distance")),
          "LonCosLatSphericalVel": ("SphericalCosLatDifferential", "LonLatSphericalPos", dict(d_lon_coslat="d_lon_coslat", d_lat="d_lat", d_distance="d_distance"))}


def norm2(X):
    return np.sqrt((np.asarray(X) ** 2).sum(-1))


def xyz(rep):
    import astropy.units as au
    return np.moveaxis(rep.to_cartesian().xyz.to_value(au.kpc), 0, -1)


def aq(a, un):
    import astropy.units as au
    return np.asarray(a) * au.Unit(un)


def safe(rng, shp, regime):
    n = int(np.prod(shp)) if shp else 1
    X = G.points(rng, 3, n, regime)
    return X.reshape(shp + (3,))


def out_case(name):
    """coordinax position -> astropy representation -> back."""
    def run(ctx):
        import astropy.coordinates as ac
        from plum import convert
        v = G.vecs()
        rng = ctx.rng
        rn, fields = POSMAP[name]
        rcls, cls = getattr(ac, rn), getattr(v, name)
        for regime in ("generic", "octants", "axes", "nearaxis", "branch", "tiny", "huge"):
            for _ in range(3 if ctx.quick() else 20):
                shp = G.pick(rng, SHAPES)
                X = safe(rng, shp, regime)
                vec, Xt, info = G.make_pos(rng, name, X)
                units = tuple(sorted((k, *t) for k, t in info["units"].items()))
                w = dict(regime=regime, shape=shp, units=units)
                S = norm2(Xt)[..., None] + 1e-300
                before = repr(vec)
                for tgt in (ac.BaseRepresentation, rcls):
                    with ctx.scope(f"out:{name}:{tgt.__name__}", **w):
                        rep = convert(vec, tgt)
                        ctx.check(type(rep) is rcls, f"out:{name}:class", f"{type(rep)}", **w)
                        ctx.check(rep.shape == shp, f"out:{name}:shape", f"{rep.shape}", **w)
                        cond = 300 if any(t in str(units) for t in ("Parallax", "DistanceModulus")) else 20
                        ctx.close(xyz(rep), Xt, cond * 2.3e-16 * S * np.ones(3), f"out:{name}:point", "astropy point", **w)
                        for k, ak in fields.items():
                            kind = dict(M.REPS[name][1])[k]
                            un = M.STD[kind]
                            a = getattr(rep, ak).to_value(un)
                            b = M.dist_kpc(getattr(vec, k)) if kind == M.LEN and M.DISTCOMP.get(name) == k else M.val(getattr(vec, k), un)
                            d = a - b
                        if k == M.AZIMUTH.get(name):
                            d = d - 2 * np.pi * np.round(d / (2 * np.pi))
                        ctx.close(d, np.zeros_like(b), 1e-13 * (np.abs(b) + (7 if kind == M.ANG else 0)) + 1e-300, f"out:{name}:component", k, **w)
                        ctx.ev("out")
                        for how, back in (("from_", lambda: cls.from_(rep)), ("convert", lambda: convert(rep, cls)), ("abstract", lambda: v.AbstractPos3D.from_(rep))):
                            o = back()
                            ctx.check(type(o) is cls and o.shape == shp, f"roundtrip:{name}:{how}:class", f"{type(o)} {o.shape}", **w)
                            ctx.close(M.cart(o), Xt, 3 * cond * 2.3e-16 * S * np.ones(3), f"roundtrip:{name}:{how}", "point after the round trip", **w)
                            ctx.ev("roundtrip")
                        ctx.check(repr(vec) == before, f"out:{name}:mutated", "operand changed", **w)
                        ctx.distinct("out", name, tgt.__name__, units, shp)
                ctx.sample(direction="out", cls=name, regime=regime, X=Xt.tolist())
    return run


def in_case(name):
    """astropy representation -> coordinax, same class and every other class."""
    def run(ctx):
        import astropy.coordinates as ac
        from plum import convert
        v = G.vecs()
        rng = ctx.rng
        rn, fields = POSMAP[name]
        rcls = getattr(ac, rn)
        for regime in ("generic", "octants", "axes", "nearaxis", "branch", "tiny", "huge"):
            for _ in range(3 if ctx.quick() else 20):
                shp = G.pick(rng, SHAPES)
                X = safe(rng, shp, regime)
                c = M.coords_of(name, X, None)
                kw, raw, us = {}, {}, []
                for k, kind in M.REPS[name][1]:
                    un = G.pick(rng, [x for x in G.units_for(kind, 0)])
                    a = np.asarray(c[k], float)
                    if k == M.AZIMUTH.get(name):
                        a = a + 2 * np.pi * rng.integers(-1, 2, a.shape)
                        if regime == "octants":
                            un = "deg"
                    val = a * M.factor(M.STD[kind], un)
                    if k in ("lat", M.POLARANG.get(name)):
                        h = 90 if k == "lat" else 180
                        lo = -h if k == "lat" else 0
                        val = np.clip(val, lo * M.factor("deg", un), h * M.factor("deg", un))
                    kw[fields[k]] = aq(val, un)
                    if name == "LonLatSphericalPos" and k == "lon" and rng.random() < 0.4:
                        kw["lon"] = ac.Longitude(kw["lon"], wrap_angle=G.pick(rng, ["180d", "360d", "90d"]))
                    if k == "distance" and rng.random() < 0.4 and np.all(np.asarray(val) > 0):
                        kw[k] = ac.Distance(kw[k])
                    raw[k] = val * M.factor(un, M.STD[kind])
                    us.append((k, un, type(kw[fields[k]]).__name__))
                Xt = M.to_cart(name, raw, None)
                w = dict(regime=regime, shape=shp, units=us)
                try:
                    rep = rcls(**kw)
                    if rng.random() < 0.3:  # attached differentials are not part of the position
                        rep = rep.with_differentials(ac.CartesianDifferential(np.ones(shp + (3,)) * aq(1, "km/s"), xyz_axis=-1)) if name == "CartesianPos3D" else rep
                except ValueError:
                    ctx.ev("astropy-refused")
                    continue
                before = repr(rep)
                S = norm2(Xt)[..., None] + 1e-300
                ctx.close(xyz(rep), Xt, 40 * 2.3e-16 * S * np.ones(3), f"harness:{name}", "astropy and model disagree", **w)
                for tgt in POSMAP:
                    cls = getattr(v, tgt)
                    ways = [("from_", lambda: cls.from_(rep))]
                    if tgt == name:
                        ways += [("convert", lambda: convert(rep, cls)), ("abstract", lambda: v.AbstractPos3D.from_(rep))]
                    else:
                        ways += [("after", lambda: v.AbstractPos3D.from_(rep).represent_as(cls))]
                    for how, fn in ways:
                        with ctx.scope(f"in:{name}:{tgt}:{how}", **w):
                            o = fn()
                            ctx.check(type(o) is cls and o.shape == shp, f"in:{name}:{tgt}:{how}:class", f"{type(o)} {o.shape}", **w)
                            ctx.close(M.cart(o), Xt, 100 * 2.3e-16 * S * np.ones(3) + (3e-8 * S if (name, tgt) == ("CylindricalPos", "SphericalPos") else 0), f"in:{name}:{tgt}:{how}", "point", **w)
                            ctx.ev("in" if tgt == name else "cross")
                            if tgt == name:
                                for k, ak in fields.items():
                                    kind = dict(M.REPS[name][1])[k]
                                    g, b = M.val(getattr(o, k), M.STD[kind]), raw[k]
                                    d = g - b
                                    if k == M.AZIMUTH.get(name):
                                        d = d - 2 * np.pi * np.round(d / (2 * np.pi))
                                    ctx.close(d, np.zeros_like(b), 1e-14 * (np.abs(b) + (7 if kind == M.ANG else 0)) + 1e-300, f"in:{name}:component", k, **w)
                    ctx.distinct("in", name, tgt, tuple(us), shp)
                if not isinstance(getattr(rep, "lon", None), ac.Longitude) or rep.lon.wrap_angle.deg == 360:  # astropy itself rewraps its operand
                    ctx.check(repr(rep) == before, f"in:{name}:mutated", "astropy operand changed", **w)
    return run


def vel_case(name):
    def run(ctx):
        import astropy.coordinates as ac
        import astropy.units as au
        from plum import convert
        v = G.vecs()
        rng = ctx.rng
        dn, pn, fields = VELMAP[name]
        rcls, dcls, cls = getattr(ac, POSMAP[pn][0]), getattr(ac, dn), getattr(v, name)
        for _ in range(24 if ctx.quick() else 200):
            shp = G.pick(rng, SHAPES)
            X = safe(rng, shp, G.pick(rng, ["generic", "octants"]))
            rates, _ = G.rand_rates(rng, pn, X)
            c = M.coords_of(pn, X, None)
            cos = np.cos(c["lat"]) if "CosLat" in name else None
            vel, bk = G.make_diff(rng, pn, 1, rates, coslat=cos)
            pos, Xt, _ = G.make_pos(rng, pn, X, disttype="q")
            us = tuple((f, str(getattr(vel, f).unit)) for f in fields)
            w = dict(shape=shp, units=us)
            want = M.cart_vel(pn, c, bk, None)
            S = norm2(want)[..., None] + 1e-300
            before = repr(vel)
            for tgt in (ac.BaseDifferential, dcls):
                with ctx.scope(f"vel-out:{name}:{tgt.__name__}", **w):
                    d = convert(vel, tgt)
                    ctx.check(type(d) is dcls and d.shape == shp, f"vel-out:{name}:class", f"{type(d)} {d.shape}", **w)
                    for f, af in fields.items():
                        q = getattr(vel, f)
                        b = np.asarray(q.value)
                        ctx.close(getattr(d, af).to_value(au.Unit(str(q.unit))), b, 1e-14 * np.abs(b), f"vel-out:{name}:component", f, **w)
                    # astropy's own geometry of (position, differential)
                    with au.set_enabled_equivalencies(au.dimensionless_angles()):
                        rep = convert(pos, ac.BaseRepresentation).with_differentials(d)
                        cv = rep.represent_as(ac.CartesianRepresentation, ac.CartesianDifferential).differentials["s"]
                    ctx.close(np.moveaxis(cv.d_xyz.to_value(au.kpc / au.Myr), 0, -1), want, 3e-13 * 30 * S * np.ones(3), f"vel-out:{name}:velocity", "Cartesian velocity by astropy", **w)
                    ctx.ev("velocity")
                    for how, back in (("from_", lambda: cls.from_(d)), ("convert", lambda: convert(d, cls)), ("abstract", lambda: v.AbstractVel3D.from_(d))):
                        o = back()
                        ctx.check(type(o) is cls and o.shape == shp, f"vel-in:{name}:{how}:class", f"{type(o)}", **w)
                        for f in fields:
                            q, r = getattr(vel, f), getattr(o, f)
                            b = np.asarray(q.value)
                            ctx.close(np.asarray(r.value) * M.factor(str(r.unit), str(q.unit)), b, 3e-14 * np.abs(b), f"vel-in:{name}:{how}:component", f, **w)
                        ctx.ev("roundtrip")
                    ctx.check(repr(vel) == before, f"vel-out:{name}:mutated", "operand changed", **w)
            # differential built by astropy, in its own units
            kw = {}
            for f, af in fields.items():
                q = getattr(vel, f)
                kw[af] = aq(np.asarray(q.value), str(q.unit))
            with ctx.scope(f"vel-in:{name}:fresh", **w):
                o = v.AbstractVel3D.from_(dcls(**kw))
                ctx.check(type(o) is cls, f"vel-in:{name}:class", f"{type(o)}", **w)
                for f, af in fields.items():
                    r = getattr(o, f)
                    ctx.close(np.asarray(r.value) * M.factor(str(r.unit), str(getattr(vel, f).unit)), kw[af].value, 3e-14 * np.abs(kw[af].value), f"vel-in:{name}:fresh:component", f, **w)
                ctx.ev("in")
            ctx.distinct("vel", name, us, shp)
    return run


def quantity_case(ctx):
    """astropy Quantity <-> Cartesian vectors; mappings and keywords of astropy quantities into every class."""
    import astropy.units as au
    from plum import convert
    v = G.vecs()
    rng = ctx.rng
    for _ in range(6 if ctx.quick() else 60):
        for name in ("CartesianPos3D", "CartesianVel3D", "CartesianAcc3D", "CylindricalPos", "SphericalPos", "MathSphericalPos", "LonLatSphericalPos", "ProlateSpheroidalPos"):
            shp = G.pick(rng, SHAPES)
            X = safe(rng, shp, "generic")
            order = B.FIELDS[name][0]
            with ctx.scope(f"q-out:{name}", shape=shp):
                if order == 0:
                    vec, X, _ = G.make_pos(rng, name, X, 0.2 if name[0] == "P" else None)
                else:
                    vec, bk = G.make_diff(rng, "CartesianPos3D", order, dict(zip("xyz", np.moveaxis(X, -1, 0))))
                    X = np.stack([bk[k] for k in "xyz"], -1)
                q = convert(vec, au.Quantity)
                ctx.check(type(q) is au.Quantity and q.shape == shp + (3,), f"q-out:{name}:form", f"{type(q)} {q.shape}")
                ctx.close(q.to_value(["kpc", "kpc/Myr", "kpc/Myr2"][order]), X, (1e-9 if name[0] == "P" else 3e-13) * norm2(X)[..., None] * np.ones(3), f"q-out:{name}", "array")
                ctx.ev("quantity")
        for dim in (1, 2, 3):
            for order, stem in enumerate(("Pos", "Vel", "Acc")):
                shp = G.pick(rng, SHAPES)
                un = G.pick(rng, G.units_for(M.LEN, order))
                dt = G.pick(rng, ["float64", "float64", "float32", "int64"])
                a = np.round(rng.normal(size=shp + (dim,)) * 30).astype(dt) if dt[0] == "i" else (rng.normal(size=shp + (dim,)) * 30).astype(dt)
                cn = f"Cartesian{stem}{dim}D"
                with ctx.scope(f"q-in:{cn}", shape=shp, unit=un, dtype=dt):
                    vec = getattr(v, cn).from_(au.Quantity(a, un, dtype=dt))
                    ctx.check(type(vec).__name__ == cn and vec.shape == shp, f"q-in:{cn}:class", f"{type(vec)}")
                    for i, (k, _) in enumerate(B.FIELDS[cn][1]):
                        q = getattr(vec, k)
                        ctx.close(np.asarray(q.value, float) * M.factor(str(q.unit), un), a[..., i].astype(float), 1e-13 * np.abs(a[..., i]), f"q-in:{cn}", k)
                    ctx.ev("quantity")
        for name in B.FIELDS:
            shp = G.pick(rng, [(), (3,)])
            vals = B.sane(rng, name, shp)
            kw = {k: aq(x, B.unit_of(name, k)) for k, x in vals.items()}
            if name == "ProlateSpheroidalPos":
                kw["Delta"] = aq(1.0, "kpc")
            cls = getattr(v, name)
            if name == "ProlateSpheroidalPos":
                kw2 = dict(kw, Delta=G.quantity(1.0, "kpc"))
            else:
                kw2 = kw
            for how, fn in (("mapping", lambda: cls.from_(kw)), ("kw", lambda: cls(**kw2))):
                with ctx.scope(f"{how}:{name}"):
                    o = fn()
                    ctx.check(type(o) is cls and o.shape == shp, f"{how}:{name}:class", f"{type(o)}")
                    for k in vals:
                        q = getattr(o, k)
                        ctx.close(np.asarray(q.value) * M.factor(str(q.unit), B.unit_of(name, k)), vals[k], 1e-14 * np.abs(vals[k]), f"{how}:{name}:component", k)
                    ctx.ev("quantity")
                    ctx.distinct(how, name, shp)


def distance_case(ctx):
    import astropy.units as au, astropy.coordinates as ac
    import coordinax.distance as cd, coordinax.angle as ca
    from plum import convert
    rng = ctx.rng
    U = {"Distance": ["kpc", "pc", "AU", "km", "lyr"], "Parallax": ["mas", "arcsec", "rad", "uarcsec"], "DistanceModulus": ["mag"]}
    for _ in range(15 if ctx.quick() else 150):
        for name in U:
            cls, un, shp = getattr(cd, name), G.pick(rng, U[name]), G.pick(rng, SHAPES)
            dt = G.pick(rng, ["float64", "float64", "float32"])
            a = (10 ** rng.uniform(-3, 3, shp) if name != "DistanceModulus" else rng.uniform(-5, 40, shp)).astype(dt)
            q = au.Quantity(a, un)
            w = dict(unit=un, shape=shp, dtype=dt)
            for how, fn in (("convert", lambda: convert(q, cls)), ("from_", lambda: cls.from_(q))):
                with ctx.scope(f"dist-in:{name}:{how}", **w):
                    o = fn()
                    ctx.check(type(o) is cls, f"dist-in:{name}:{how}:class", f"{type(o)}", **w)
                    ctx.close(np.asarray(o.value) * M.factor(str(o.unit), un) if un != "mag" else np.asarray(o.value), a, 1e-7 * np.abs(a) if dt == "float32" else 1e-15 * np.abs(a), f"dist-in:{name}:{how}", "value", **w)
                    b = convert(o, au.Quantity)
                    ctx.check(type(b) is au.Quantity, f"dist-out:{name}:class", f"{type(b)}", **w)
                    ctx.close(b.to_value(un), a, 1e-7 * np.abs(a) if dt == "float32" else 2e-15 * np.abs(a), f"dist-out:{name}", "value", **w)
                    ctx.ev("distance")
            ctx.distinct("dist", name, un, shp, dt)
        # astropy's Distance computes the three measures by itself
        d = 10 ** rng.uniform(2.5, 6)  # astropy's parallax is the small-angle one
        ad = ac.Distance(d, "pc")
        with ctx.scope("astropy-distance", d=d):
            ours = cd.Distance.from_(ad)
            ctx.close(M.dist_kpc(ours), d / 1e3, 1e-15 * d, "astropy-distance", "value")
            ctx.close(np.asarray(ours.parallax.value) * M.factor(str(ours.parallax.unit), "mas"), ad.parallax.to_value("mas"), 1e-13 * ad.parallax.to_value("mas"), "astropy-distance:parallax", "", d=d)
            ctx.close(np.asarray(ours.distance_modulus.value), ad.distmod.value, 1e-12, "astropy-distance:distmod", "", d=d)
            o = cd.DistanceModulus.from_(ad.distmod)
            ctx.close(M.dist_kpc(o), d / 1e3, 1e-13 * d, "astropy-distance:distmod-in", "", d=d)
            o = cd.Parallax.from_(ad.parallax)
            ctx.close(M.dist_kpc(o), d / 1e3, 1e-13 * d, "astropy-distance:parallax-in", "", d=d)
            back = convert(ours, ac.Distance)
            ctx.check(type(back) is ac.Distance and abs(back.to_value("pc") - d) <= 1e-15 * d, "astropy-distance:out", f"{back}")
            ctx.ev("distance", 3)
        for src in (au.Quantity, ac.Angle, ac.Longitude, ac.Latitude):
            un, shp = G.pick(rng, ["rad", "deg", "arcsec", "hourangle"]), G.pick(rng, SHAPES)
            lim = 1.5 if src is ac.Latitude else 6.2 if src is ac.Longitude else 20
            a = (rng.uniform(-1, 1, shp) if src is not ac.Longitude else rng.uniform(0, 1, shp)) * lim * M.factor("rad", un)
            with ctx.scope(f"angle:{src.__name__}", unit=un, shape=shp):
                o = ca.Angle.from_(src(a, un))
                ctx.check(type(o) is ca.Angle, f"angle:{src.__name__}:class", f"{type(o)}")
                ctx.close(np.asarray(o.value) * M.factor(str(o.unit), un), a, 3e-15 * np.abs(a), f"angle:{src.__name__}:in", "")
                for T in (au.Quantity, ac.Angle):
                    b = convert(o, T)
                    ctx.check(type(b) is T, f"angle:{T.__name__}:class", f"{type(b)}")
                    ctx.close(b.to_value(un), a, 3e-15 * np.abs(a), f"angle:{T.__name__}:out", "")
                ctx.ev("angle", 2)


def frame_case(ctx):
    import astropy.units as au, astropy.coordinates as ac
    import coordinax.frames as cf
    rng = ctx.rng
    ctx.check(type(cf.ICRS.from_(ac.ICRS())) is cf.ICRS, "frame:icrs", "")
    for n in (1, 5):
        z = np.zeros(n) * au.deg
        ctx.must_raise(lambda: cf.ICRS.from_(ac.ICRS(z, z)), "frame:icrs-data")
        ctx.must_raise(lambda: cf.Galactocentric.from_(ac.Galactocentric(z.value * au.kpc, z.value * au.kpc, z.value * au.kpc)), "frame:gcf-data")
    g = cf.Galactocentric.from_(ac.Galactocentric())
    for i in range(12 if ctx.quick() else 120):
        lon, lat, d = rng.uniform(-179, 359), rng.uniform(-89, 89), 10 ** rng.uniform(-1, 2)
        roll, z, vs = rng.uniform(-200, 200), rng.normal() * 0.03, rng.normal(size=3) * 200
        uz, ud = G.pick(rng, ["pc", "kpc", "AU"]), G.pick(rng, ["kpc", "pc"])
        kw = dict(galcen_coord=ac.ICRS(ra=lon * au.deg, dec=lat * au.deg), galcen_distance=(d * au.kpc).to(ud), roll=roll * au.deg, z_sun=(z * au.kpc).to(uz),
                  galcen_v_sun=ac.CartesianDifferential(vs * au.km / au.s) if rng.random() < 0.5 else vs * au.km / au.s)
        drop = [k for k in list(kw) if rng.random() < 0.25]
        for k in drop:
            if k not in ("galcen_coord",):
                kw.pop(k)
        af = ac.Galactocentric(**kw)
        with ctx.scope("frame:gcf", dropped=drop):
            f = cf.Galactocentric.from_(af)
            got = [M.val(f.galcen.lon, "deg"), M.val(f.galcen.lat, "deg"), M.val(f.galcen.distance, "kpc"), M.val(f.roll, "deg"), M.val(f.z_sun, "kpc")]
            want = [af.galcen_coord.ra.deg % 360, af.galcen_coord.dec.deg, af.galcen_distance.to_value("kpc"), af.roll.to_value("deg"), af.z_sun.to_value("kpc")]
            ctx.close(np.array(got), np.array(want), 1e-12 * (1 + np.abs(want)), "frame:parameters", "lon lat d roll z_sun", dropped=drop)
            ctx.close(M.vel_cart(f.galcen_v_sun, np.zeros(3)), af.galcen_v_sun.d_xyz.to_value("kpc/Myr"), 1e-12, "frame:v_sun", "", dropped=drop)
            X, V = rng.normal(size=3) * 10 + 1e-3, rng.normal(size=3) * 0.3
            rep = ac.CartesianRepresentation(X * au.kpc, differentials=ac.CartesianDifferential(V * au.kpc / au.Myr))
            for way in ("fwd", "back"):
                o = (ac.ICRS(rep).transform_to(af) if way == "fwd" else af.realize_frame(rep).transform_to(ac.ICRS())).cartesian
                op = cf.frame_transform_op(cf.ICRS(), f) if way == "fwd" else cf.frame_transform_op(f, cf.ICRS())
                q, p = op(G.quantity(X, "kpc"), G.quantity(V, "kpc/Myr"))
                S = norm2(X) + want[2]
                ctx.close(np.asarray(q.value) * M.factor(str(q.unit), "kpc"), o.xyz.to_value("kpc"), 1e-10 * S, f"frame:{way}:position", "", dropped=drop)
                ctx.close(np.asarray(p.value) * M.factor(str(p.unit), "kpc/Myr"), o.differentials["s"].d_xyz.to_value("kpc/Myr"), 1e-10, f"frame:{way}:velocity", "", dropped=drop)
                ctx.ev("frame")
            ctx.distinct("frame", tuple(drop), uz, ud)


def cases(tier):
    return [(f"out:{n}", out_case(n)) for n in POSMAP] + [(f"in:{n}", in_case(n)) for n in POSMAP] + [(f"vel:{n}", vel_case(n)) for n in VELMAP] + \
        [("quantity", quantity_case), ("distance", distance_case), ("frame", frame_case)]


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

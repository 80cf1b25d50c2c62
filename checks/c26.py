"""C26: physically meaningless input is refused."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import operator
import numpy as np
from mon import model as M, gen as G, runtime as R, build as B, programs as P

PROP = "C26"
RULE = ("a case takes one constructor, conversion, operator or arithmetic operation with one argument replaced by something meaningless (every "
        "wrong physical dimension from a list of 17, a bare number, a wrong component count, a missing position / velocity / focal length, "
        "a vector of another kind, an incompatible shape), eagerly and under jit, with runtime type checking off and on, and requires an "
        "error; the same call with a meaningful argument must succeed (control); distinct = (operation, argument, wrong value)")
ASSUMPTIONS = ["an angle or a magnitude given as a radial distance means a parallax or a distance modulus (documented)",
               "adding positions of different dimension converts the right operand (with a warning) and is defined; comparing different kinds gives False",
               "any exception counts as refusal"]
REQUIRED = {"refused": 2500, "control": 180, "refused:jit": 35, "refused:arithmetic": 700, "refused:assignment": 40, "refused:missing": 60, "refused:count": 50}
MODES = [{}, {"COORDINAX_ENABLE_RUNTIME_TYPECHECKING": "beartype.beartype"}]
WRONG = ["kg", "s", "m", "rad", "m/s", "rad/s", "m/s2", "rad/s2", "m2", "m2/s", "m2/s2", "", "mag", "K", "1/m", "kg m/s", "s/m"]


def same_dim(a, b):
    u = G.U()
    return u.dimension_of(u.unit(a)) == u.dimension_of(u.unit(b)) if False else u.unit(a).physical_type == u.unit(b).physical_type


class T:
    """Collects refusals and controls of one operation."""

    def __init__(self, ctx):
        self.ctx = ctx

    def control(self, mech, fn, **w):
        ctx = self.ctx
        try:
            fn()
        except Exception as e:  # noqa: BLE001
            ctx.violation(f"control:{mech}", f"the meaningful call failed: {type(e).__name__}: {str(e)[:300]}", **w)
            return False
        ctx.ev("control")
        ctx.evals += 1
        return True

    def refuse(self, mech, fn, kind=None, **w):
        ctx = self.ctx
        ctx.ev("refused")
        if kind:
            ctx.ev("refused:" + kind)
        ctx.distinct(mech, repr(sorted(w.items()))[:120])
        if ctx.evals % 97 == 0:
            ctx.sample(refused=mech, **{k: str(x) for k, x in w.items()})
        ctx.must_raise(fn, mech, msg="meaningless input accepted", **w)


def unit_list(ok):
    """Wrong units for something that accepts any of ``ok``."""
    return [w for w in WRONG if not any(same_dim(w, o) for o in ok)]


def component_case(name):
    def run(ctx):
        u, v = G.U(), G.vecs()
        t = T(ctx)
        cls = getattr(v, name)
        order, comps = B.FIELDS[name]
        vals = B.sane(ctx.rng, name, ())
        units = {k: B.unit_of(name, k) for k, _ in comps}
        radial = M.DISTCOMP.get(name)
        if name == "ProlateSpheroidalPos":
            vals = {**vals, "mu": np.asarray(2.5), "nu": np.asarray(0.3)}  # a point of the system with Delta = 0.9

        def mk(shape=(), **over):
            kw = {k: u.Quantity(np.broadcast_to(vals[k], shape) if shape else vals[k], units[k]) for k, _ in comps}
            if name == "ProlateSpheroidalPos":
                kw["Delta"] = u.Quantity(0.9, "kpc")
            kw.update(over)
            return kw

        if not t.control(f"construct:{name}", lambda: cls(**mk())):
            return
        dist = {k: ["m", "rad", "mag"] if k == radial else [units[k]] for k, _ in comps}
        for k, kind in comps:
            for w in unit_list(dist[k]):
                for shp in ((), (3,)):
                    q = u.Quantity(np.broadcast_to(vals[k], shp) if shp else vals[k], w)
                    t.refuse(f"component:{name}.{k}", lambda: cls(**mk(shp, **{k: q})), unit=w, shape=shp)
                t.refuse(f"component:{name}.{k}:mapping", lambda: cls.from_(mk(**{k: u.Quantity(vals[k], w)})), unit=w)
                if not ctx.quick():
                    t.refuse(f"component:{name}.{k}:kw", lambda: cls.from_(**mk(**{k: u.Quantity(vals[k], w)})), unit=w)
                    import jax
                    t.refuse(f"component:{name}.{k}:jit", lambda: jax.jit(lambda z: cls(**mk(**{k: u.Quantity(z, w)})))(1.0), "jit", unit=w)
            for bad in (float(vals[k]), "1 kpc", None, [float(vals[k])], np.asarray(vals[k])):
                t.refuse(f"component:{name}.{k}", lambda: cls(**mk(**{k: bad})), value=repr(bad)[:30])
            rest = mk()
            rest.pop(k)
            t.refuse(f"missing-component:{name}.{k}", lambda: cls(**rest), "missing")
        import jax
        k, kind = comps[int(ctx.rng.integers(len(comps)))]
        w = G.pick(ctx.rng, unit_list(dist[k]))
        t.control(f"construct:{name}:jit", lambda: jax.jit(lambda z: cls(**mk(**{k: u.Quantity(z, units[k])})))(float(vals[k])))
        t.refuse(f"component:{name}.{k}:jit", lambda: jax.jit(lambda z: cls(**mk(**{k: u.Quantity(z, w)})))(float(vals[k])), "jit", unit=w)
        t.refuse(f"unknown-component:{name}", lambda: cls(**mk(nonsense=u.Quantity(1.0, "m"))))
        if name == "ProlateSpheroidalPos":
            for w in unit_list(["m"]):
                t.refuse("Delta", lambda: cls(**mk(Delta=u.Quantity(0.9, w))), unit=w)
            t.refuse("Delta", lambda: cls(**mk(Delta=0.9)), value="float")
            bad = mk()
            bad.pop("Delta")
            t.refuse("Delta", lambda: cls(**bad), "missing", value="missing")
        # incompatible component shapes
        if len(comps) > 1:
            kw = mk()
            kw[comps[0][0]] = u.Quantity(np.full(2, vals[comps[0][0]]), units[comps[0][0]])
            kw[comps[1][0]] = u.Quantity(np.full(3, vals[comps[1][0]]), units[comps[1][0]])
            t.refuse(f"component-shapes:{name}", lambda: cls(**kw).shape)
        # assignment
        x = cls(**mk((2,)))
        for key in (0, slice(None), comps[0][0]):
            def put():
                x[key] = x
            t.refuse(f"assignment:{name}", put, "assignment", key=repr(key))
        t.refuse(f"assignment:{name}", lambda: setattr(x, comps[0][0], getattr(x, comps[0][0])), "assignment", key="attribute")
        # units of another dimension
        for w in unit_list([units[k] for k, _ in comps] + ["m", "rad", "s"])[:6]:
            dims = {u.dimension_of(u.unit(units[k])): w for k, _ in comps}
            t.refuse(f"uconvert:{name}", lambda: x.uconvert(dims), unit=w)
    return run


def nd_case(ctx):
    u, v = G.U(), G.vecs()
    t = T(ctx)
    for n, (f, o) in B.ND.items():
        un = ["kpc", "kpc/Myr", "kpc/Myr2"][o]
        cls = getattr(v, n)
        t.control(f"construct:{n}", lambda: cls(u.Quantity(np.ones(4), un)))
        for w in unit_list([un]):
            t.refuse(f"component:{n}", lambda: cls(u.Quantity(np.ones(4), w)), unit=w)
            t.refuse(f"component:{n}:from", lambda: cls.from_(u.Quantity(np.ones(4), w)), unit=w)
        t.refuse(f"component:{n}", lambda: cls(np.ones(4)), value="array")
    # whole vectors from one quantity
    for d in (1, 2, 3):
        for o, s in enumerate(("Pos", "Vel", "Acc")):
            n = f"Cartesian{s}{d}D"
            cls, un = getattr(v, n), ["kpc", "kpc/Myr", "kpc/Myr2"][o]
            t.control(f"from:{n}", lambda: cls.from_(u.Quantity(np.ones(d), un)))
            t.control(f"from:{n}:array", lambda: cls.from_(np.ones(d), un))
            for w in unit_list([un]):
                t.refuse(f"from:{n}", lambda: cls.from_(u.Quantity(np.ones(d), w)), unit=w)
                t.refuse(f"from:{n}:array", lambda: cls.from_(np.ones(d), w), unit=w)
            for m in range(1, 7):
                if m == d:
                    continue
                for shp in ((m,), (2, m), (d, m)):
                    if d == 1 and shp == (1, m):
                        continue
                    if d == 1:  # a 1-D position takes any batch of lengths; only the trailing axis distinguishes, and it is not required
                        continue
                    t.refuse(f"count:{n}", lambda: cls.from_(u.Quantity(np.ones(shp), un)), "count", shape=shp)
                    t.refuse(f"count:{n}:array", lambda: cls.from_(np.ones(shp), un), "count", shape=shp)
    cls = v.FourVector
    q = v.CartesianPos3D.from_(np.ones(3), "kpc")
    t.control("FourVector", lambda: cls(t=u.Quantity(1.0, "Myr"), q=q))
    t.control("FourVector.from_", lambda: cls.from_(u.Quantity(np.ones(4), "kpc")))
    for w in unit_list(["s"]):
        t.refuse("FourVector.t", lambda: cls(t=u.Quantity(1.0, w), q=q), unit=w)
    for w in unit_list(["m/s"]):
        t.refuse("FourVector.c", lambda: cls(t=u.Quantity(1.0, "Myr"), q=q, c=u.Quantity(1.0, w)), unit=w)
    for w in unit_list(["m"]):
        t.refuse("FourVector.q", lambda: cls(t=u.Quantity(1.0, "Myr"), q=u.Quantity(np.ones(3), w)), unit=w)
        t.refuse("FourVector.from_", lambda: cls.from_(u.Quantity(np.ones(4), w)), unit=w)
    for m in (1, 2, 3, 5, 6):
        t.refuse("count:FourVector", lambda: cls.from_(u.Quantity(np.ones(m), "kpc")), "count", n=m)
        t.refuse("count:FourVector.q", lambda: cls(t=u.Quantity(1.0, "Myr"), q=u.Quantity(np.ones(m), "kpc")) if m != 3 else 1 / 0, "count", n=m)
    t.refuse("FourVector.shape", lambda: cls(t=u.Quantity(np.ones(3), "Myr"), q=q))
    t.refuse("FourVector.shape", lambda: cls(t=u.Quantity(np.ones(3), "Myr"), q=v.CartesianPos3D.from_(np.ones((2, 3)), "kpc")))
    for bad in (v.CartesianVel3D.from_(np.ones(3), "km/s"), v.CartesianAcc3D.from_(np.ones(3), "m/s2"), v.CartesianPos2D.from_(np.ones(2), "kpc"), 1.0, None):
        t.refuse("FourVector.q", lambda: cls(t=u.Quantity(1.0, "Myr"), q=bad), value=type(bad).__name__)


def scalars_case(ctx):
    """Distances and angles."""
    u = G.U()
    from coordinax.angle import Angle
    from coordinax.distance import Distance, DistanceModulus, Parallax
    t = T(ctx)
    for c, ok, conv in ((Distance, "kpc", ["m", "rad", "mag"]), (Angle, "deg", ["rad"]), (Parallax, "mas", ["rad", "m", "mag"]), (DistanceModulus, "mag", ["mag", "m", "rad"])):
        n = c.__name__
        t.control(n, lambda: c(1.0, ok))
        t.control(n + ":from", lambda: c.from_(u.Quantity(1.0, ok)))
        for shp in ((), (2,)):
            for w in unit_list([ok]):
                t.refuse(n, lambda: c(np.ones(shp), w), unit=w, shape=shp)
            for w in unit_list(conv):
                t.refuse(n + ":from", lambda: c.from_(u.Quantity(np.ones(shp), w)), unit=w, shape=shp)
                t.refuse(n + ":from-array", lambda: c.from_(np.ones(shp), w), unit=w, shape=shp)
    d, a, p, m = Distance(2.0, "kpc"), Angle(1.0, "rad"), Parallax(1.0, "mas"), DistanceModulus(3.0, "mag")
    objs = {"Distance": (d, "kpc"), "Angle": (a, "rad"), "Parallax": (p, "mas")}
    for n, (x, un) in objs.items():
        t.control(f"sum:{n}", lambda: x + u.Quantity(1.0, un))
        t.control(f"diff:{n}", lambda: x - u.Quantity(0.5, un))
        for w in unit_list([un, ""] if n != "Distance" else [un]):
            if n != "Distance" and w in ("", "rad"):
                continue
            for on, f in (("+", operator.add), ("-", operator.sub), ("<", operator.lt), (">=", operator.ge)):
                t.refuse(f"{on}:{n}", lambda: f(x, u.Quantity(1.0, w)), "arithmetic", unit=w)
                if on in "+-":
                    t.refuse(f"r{on}:{n}", lambda: f(u.Quantity(1.0, w), x), "arithmetic", unit=w)
    for n, x, y in (("Distance+Angle", d, a), ("Distance+Parallax", d, p), ("Angle+Distance", a, d), ("Distance+DistanceModulus", d, m), ("DistanceModulus+Distance", m, d),
                    ("Parallax+Distance", p, d), ("Parallax+DistanceModulus", p, m)):
        t.refuse(f"sum:{n}", lambda: x + y, "arithmetic")
        t.refuse(f"diff:{n}", lambda: x - y, "arithmetic")
    import quaxed.numpy as jnp
    for fn in ("sin", "cos", "tan"):
        t.control(f"{fn}:Angle", lambda: getattr(jnp, fn)(a))
        t.refuse(f"{fn}:Distance", lambda: getattr(jnp, fn)(d))


def conversion_case(ctx):
    """Conversions that lack information, or get wrong information."""
    u, v = G.U(), G.vecs()
    t = T(ctx)
    s = P.Slots(ctx.rng, (), None)
    D = u.Quantity(0.4, "kpc")
    for A in M.POS3:
        x = s.pos(A)
        if A != "ProlateSpheroidalPos":
            t.control(f"prolate:{A}", lambda: x.represent_as(v.ProlateSpheroidalPos, Delta=D))
            t.refuse(f"prolate-no-Delta:{A}", lambda: x.represent_as(v.ProlateSpheroidalPos), "missing")
        for w in unit_list(["m"]):
            t.refuse(f"prolate-Delta:{A}", lambda: x.represent_as(v.ProlateSpheroidalPos, Delta=u.Quantity(0.4, w)), unit=w)
        for bad in (0.4, None, u.Quantity(-0.4, "kpc"), u.Quantity(0.0, "kpc")):
            t.refuse(f"prolate-Delta:{A}", lambda: x.represent_as(v.ProlateSpheroidalPos, Delta=bad), value=str(bad))
        for bad in (v.CartesianVel3D, v.SphericalAcc, float, u.Quantity, v.FourVector, None, "SphericalPos"):
            t.refuse(f"target:{A}", lambda: x.represent_as(bad), target=getattr(bad, "__name__", str(bad)))
    dims = {1: M.POS1, 2: M.POS2, 3: M.POS3}
    for d, names in dims.items():
        for pn in names:
            q = s.pos(pn, pn)
            vn, an = M.velname(pn), M.accname(pn)
            p, a = s.vel(vn, pn), s.vel(an, pn, 2)
            for tn in names:
                kw = {"Delta": D} if "Prol" in pn + tn else {}
                tv, ta = getattr(v, M.velname(tn)), getattr(v, M.accname(tn))
                if tn == pn and (pn.startswith("Cart") or pn == "RadialPos"):
                    continue  # affine: needs nothing
                if ctx.quick() and d == 3 and ctx.rng.random() < 0.5:
                    continue
                t.control(f"velocity:{vn}->{tn}", lambda: p.represent_as(tv, q, **kw))
                t.refuse(f"velocity-no-position:{vn}->{M.velname(tn)}", lambda: p.represent_as(tv, **kw), "missing")
                t.refuse(f"acceleration-nothing:{an}->{M.accname(tn)}", lambda: a.represent_as(ta, **kw), "missing")
                t.refuse(f"acceleration-one:{an}->{M.accname(tn)}", lambda: a.represent_as(ta, q, **kw), "missing")
                t.refuse(f"acceleration-one:{an}->{M.accname(tn)}", lambda: a.represent_as(ta, p, **kw), "missing", which="velocity")
                if tn != pn:
                    t.refuse(f"acceleration-swapped:{an}->{M.accname(tn)}", lambda: a.represent_as(ta, q, p, **kw))
                    for w in unit_list(["m"])[::3]:
                        t.refuse(f"velocity-position-unit:{vn}", lambda: p.represent_as(tv, u.Quantity(np.ones(d), w), **kw), unit=w)
                    for o in (1, 2, 3):
                        if o < d:  # a position of too low a dimension does not say where the velocity is
                            low = s.pos(dims[o][0], "low")
                            try:
                                low.represent_as(getattr(v, pn), **kw)
                            except Exception:  # noqa: BLE001
                                t.refuse(f"velocity-position-dim:{vn}", lambda: p.represent_as(tv, low, **kw), position=dims[o][0])
                for bad in (getattr(v, tn), getattr(v, M.accname(tn))):
                    t.refuse(f"velocity-target:{vn}", lambda: p.represent_as(bad, q, **kw), target=bad.__name__)
                for bad in (getattr(v, tn), tv):
                    t.refuse(f"acceleration-target:{an}", lambda: a.represent_as(bad, p, q, **kw), target=bad.__name__)
    for A in M.POS2:
        x = s.pos(A)
        for tn in ("CylindricalPos", "CartesianPos3D"):
            t.control(f"lift:{A}->{tn}", lambda: x.represent_as(getattr(v, tn), z=u.Quantity(1.0, "kpc")))
            for w in unit_list(["m"]):
                t.refuse(f"lift-z:{A}->{tn}", lambda: x.represent_as(getattr(v, tn), z=u.Quantity(1.0, w)), unit=w)
    # norms that need a place
    for n in ("SphericalVel", "CylindricalVel", "PolarVel", "MathSphericalVel", "LonLatSphericalVel"):
        q = s.pos(M.posname(n), "n")
        p = s.vel(n, "n")
        t.control(f"norm:{n}", lambda: p.norm(q))
        t.refuse(f"norm:{n}", lambda: p.norm(), "missing")
    # under jit
    import jax
    x, p = s.pos("CartesianPos3D", "j"), s.vel("CartesianVel3D", "j")
    t.control("jit:velocity", lambda: jax.jit(lambda a, b: a.represent_as(v.SphericalVel, b))(p, x))
    t.refuse("jit:velocity", lambda: jax.jit(lambda a: a.represent_as(v.SphericalVel))(p), "jit")
    t.refuse("jit:prolate", lambda: jax.jit(lambda b: b.represent_as(v.ProlateSpheroidalPos))(x), "jit")
    t.refuse("jit:add", lambda: jax.jit(operator.add)(x, p), "jit")


def operator_case(ctx):
    import coordinax.ops as co
    from coordinax.frames import Galactocentric, ICRS
    u, v = G.U(), G.vecs()
    t = T(ctx)
    s = P.Slots(ctx.rng, (), None)
    one = np.ones(3)
    par = {
        "GalileanSpatialTranslation": ("m", lambda w: co.GalileanSpatialTranslation.from_(u.Quantity(one, w))),
        "GalileanSpatialTranslation:init": ("m", lambda w: co.GalileanSpatialTranslation(v.CartesianPos3D.from_(one, w))),
        "GalileanBoost": ("m/s", lambda w: co.GalileanBoost.from_(u.Quantity(one, w))),
        "GalileanBoost:init": ("m/s", lambda w: co.GalileanBoost(v.CartesianVel3D.from_(one, w))),
        "VelocityBoost": ("m/s", lambda w: co.VelocityBoost.from_(u.Quantity(one, w))),
        "GalileanTranslation": ("m", lambda w: co.GalileanTranslation.from_(u.Quantity(np.ones(4), w))),
        "GalileanTranslation:t": ("s", lambda w: co.GalileanTranslation(v.FourVector(t=u.Quantity(1.0, w), q=v.CartesianPos3D.from_(one, "kpc")))),
        "GalileanOperator:velocity": ("m/s", lambda w: co.GalileanOperator(velocity=u.Quantity(one, w))),
        "GalileanOperator:translation": ("m", lambda w: co.GalileanOperator(translation=u.Quantity(np.ones(4), w))),
        "euler": ("rad", lambda w: co.GalileanRotation.from_euler("z", u.Quantity(1.0, w))),
        "Galactocentric:roll": ("rad", lambda w: Galactocentric(roll=u.Quantity(1.0, w))),
        "Galactocentric:z_sun": ("m", lambda w: Galactocentric(z_sun=u.Quantity(1.0, w))),
        "Galactocentric:v_sun": ("m/s", lambda w: Galactocentric(galcen_v_sun=u.Quantity(one, w))),
    }
    for n, (ok, f) in par.items():
        t.control(f"operator:{n}", lambda: f(ok))
        for w in unit_list([ok]):
            t.refuse(f"operator:{n}", lambda: f(w), unit=w)
    # operators applied to the wrong thing
    ops = {"rotation": co.GalileanRotation(P.rotation_matrix(ctx.rng)), "translation": co.GalileanSpatialTranslation.from_(u.Quantity(one, "kpc")),
           "boost": co.GalileanBoost.from_(u.Quantity(one, "km/s")), "sttrans": co.GalileanTranslation.from_(u.Quantity(np.ones(4), "kpc")),
           "galilean": co.GalileanOperator(velocity=u.Quantity(one, "km/s"))}
    ops["pipe"] = ops["rotation"] | ops["translation"]
    q3, time = s.pos("CartesianPos3D"), u.Quantity(1.0, "Myr")
    for n, o in ops.items():
        t.control(f"apply:{n}", lambda: o(q3, time))
        for w in unit_list(["s"]):
            if n in ("boost", "sttrans", "galilean"):
                t.refuse(f"apply:{n}:time", lambda: o(q3, u.Quantity(1.0, w)), unit=w)
        if n in ("rotation", "translation"):
            t.control(f"apply:{n}:q", lambda: o(u.Quantity(one, "kpc")))
            for w in unit_list(["m"]):
                t.refuse(f"apply:{n}:q", lambda: o(u.Quantity(one, w)), unit=w)
            # four components are an event; a translation meets a position of lower dimension as addition does (converts, with a warning)
            for m in (1, 2, 5, 6, 7) if n == "rotation" else (5, 6, 7):
                t.refuse(f"apply:{n}:count", lambda: o(u.Quantity(np.ones(m), "kpc")), "count", n=m)
        for bad in (1.0, None, "x", object(), [1.0, 2.0, 3.0]):
            t.refuse(f"apply:{n}:junk", lambda: o(bad), value=type(bad).__name__)
    for bad in (ICRS, "icrs", 1, None, q3):
        t.refuse("frame:target", lambda: ICRS().transform_op(bad), value=str(bad)[:20])


def arithmetic_case(chunk, n):
    def run(ctx):
        u, v = G.U(), G.vecs()
        t = T(ctx)
        names = [x for x in B.FIELDS if not x.startswith("TwoSphere")] + list(B.ND) + ["FourVector"]

        def mk(name, shp=()):
            if name in B.ND:
                return getattr(v, name)(u.Quantity(np.ones(shp + (4,)), ["kpc", "kpc/Myr", "kpc/Myr2"][B.ND[name][1]]))
            if name == "FourVector":
                return v.FourVector(t=u.Quantity(np.ones(shp), "Myr"), q=mk("CartesianPos3D", shp))
            vals = B.sane(ctx.rng, name, shp)
            return B.build(name, vals, {k: B.unit_of(name, k) for k in vals})

        def order(name):
            return "four" if name == "FourVector" else B.FIELDS[name][0] if name in B.FIELDS else B.ND[name][1]

        objs = {x: mk(x) for x in names}
        for i, a in enumerate(names):
            if i % n != chunk:
                continue
            x = objs[a]
            for b in names:
                if order(a) == order(b):
                    continue
                if "four" in (order(a), order(b)) and 0 in (order(a), order(b)):
                    continue  # a four-vector and a position: conversion question, not a kind mismatch
                for on, f in (("+", operator.add), ("-", operator.sub), ("*", operator.mul), ("/", operator.truediv), ("@", operator.matmul), ("<", operator.lt)):
                    t.refuse(f"{on}:{a}:{b}", lambda: f(x, objs[b]), "arithmetic")
            for b in names:
                if b != a and order(b) == order(a) and order(a) in (1, 2):  # velocities of another basis cannot be added without a place
                    da = B.DIM.get(a)
                    if B.DIM.get(b) != da or not (a.startswith("Cart") and b.startswith("Cart")):
                        for on, f in (("+", operator.add), ("-", operator.sub)):
                            t.refuse(f"{on}:{a}:{b}", lambda: f(x, objs[b]), "arithmetic")
            for qn, q in (("length", u.Quantity(2.0, "kpc")), ("mass", u.Quantity(2.0, "kg")), ("angle", u.Quantity(1.0, "rad")), ("time", u.Quantity(1.0, "Myr")),
                          ("number", 1.0), ("none", None), ("text", "x"), ("array", np.ones(3)), ("list", [1.0, 2.0, 3.0])):
                for on, f in (("+", operator.add), ("-", operator.sub)):
                    t.refuse(f"{on}:{a}:{qn}", lambda: f(x, q), "arithmetic")
                    t.refuse(f"r{on}:{a}:{qn}", lambda: f(q, x), "arithmetic")
                if qn in ("mass", "angle", "length") or (qn == "time" and order(a) == 0):
                    for on, f in (("*", operator.mul), ("/", operator.truediv)):
                        t.refuse(f"{on}:{a}:{qn}", lambda: f(x, q), "arithmetic")
                        t.refuse(f"r{on}:{a}:{qn}", lambda: f(q, x), "arithmetic")
            if order(a) == 0 and a not in B.ND:
                y2, y3 = mk(a, (2,)), mk(a, (3,))
                t.control(f"+:{a}", lambda: y2 + y2)
                for on, f in (("+", operator.add), ("-", operator.sub), ("*", operator.mul)):
                    t.refuse(f"shape:{on}:{a}", lambda: f(y2, y3), "arithmetic")
            if a in ("CartesianVel3D", "CartesianAcc3D", "FourVector", "CartesianPosND", "CartesianVel2D"):
                y2, y3 = mk(a, (2,)), mk(a, (3,))
                t.control(f"+:{a}", lambda: y2 + y2)
                t.refuse(f"shape:+:{a}", lambda: y2 + y3, "arithmetic")
    return run


def cases(tier):
    out = [("conversions", conversion_case), ("operators", operator_case), ("scalars", scalars_case), ("whole", nd_case)]
    out += [(f"arithmetic:{i}", arithmetic_case(i, 6)) for i in range(6)]
    out += [(f"component:{n}", component_case(n)) for n in B.FIELDS]
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

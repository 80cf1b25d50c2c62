"""C17: jit, vmap and differentiation do not change results; everything survives flattening."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import dataclasses
import numpy as np
from mon import model as M, gen as G, runtime as R, build as B, programs as P

PROP = "C17"
RULE = ("a case runs one public program eagerly on a batch, eagerly element by element, under jit, under vmap, under jit(vmap), and compares "
        "physical values, types and units; differentiates it (jvp and vjp in random directions over every operand component) against "
        "central differences and the adjoint identity; or flattens/unflattens one class of object and compares everything; distinct = "
        "(program, transformation, shape) and (class, tree operation)")
ASSUMPTIONS = ["derivatives are taken at points away from the axis, the origin and the branch cuts of the angles",
               "batched operands share the batch shape; attributes such as Delta are scalar"]
REQUIRED = {"jit": 200, "vmap": 100, "element": 100, "jvp": 100, "vjp": 100, "pytree": 60, "scan": 3}
_lib = {}


def lib():
    if not _lib:
        _lib.update({p.name: p for p in P.library()})
    return _lib


def axes_of(tree, n, axis=0):
    """Per-leaf mapped axis: leaves that carry the batch."""
    import jax
    return jax.tree.map(lambda x: axis if np.ndim(x) > axis and np.shape(x)[axis] == n else None, tree)


def take(tree, axes, i):
    import jax
    leaves, td = jax.tree.flatten(tree)
    ax = jax.tree.flatten(axes, is_leaf=lambda x: x is None)[0]
    return jax.tree.unflatten(td, [x if a is None else jax.numpy.take(jax.numpy.asarray(x), i, axis=a) for x, a in zip(leaves, ax)])


def bcast(got, want):
    """Broadcast attributes that a mapped evaluation legitimately replicated (or did not) over the batch."""
    out = {}
    for k, (t, a) in got.items():
        if k in want and np.shape(a) != np.shape(want[k][1]):
            w = want[k][1]
            try:
                sh = np.broadcast_shapes(np.shape(a), np.shape(w))
                if sh == np.shape(a):
                    want = dict(want)
                    # replicate along the leading batch axis
                    want[k] = (want[k][0], np.broadcast_to(np.reshape(w, np.shape(w) + (1,) * (len(sh) - np.ndim(w))) if np.ndim(w) and np.shape(w)[0] == sh[0] else w, sh))
            except ValueError:
                pass
        out[k] = (t, a)
    return out, want


def cmp(ctx, got, want, p, mech, **w):
    a, b = P.phys(got), P.phys(want)
    a, b = bcast(a, b)
    P.compare(ctx, a, b, p.tol, mech, **w)
    ua, ub = P.units(got), P.units(want)
    ctx.check(P.same_units(ua, ub), mech + ":units", f"{ua} != {ub}", **w)


def stack(parts):
    import jax
    import jax.numpy as jnp
    return jax.tree.map(lambda *x: jnp.stack([jnp.asarray(y) for y in x]), *parts)


def prog_case(name):
    def run(ctx):
        import jax
        import equinox as eqx

        p = lib()[name]
        n = 4
        shapes = [(n,)] if p.batch else [()]
        if not ctx.quick():
            shapes = [(n,), (), (n, 2)] if p.batch else [()]
        for shp in shapes:
            with ctx.scope(f"{name}", shape=shp):
                ops = P.operands(ctx.rng, p, shp, ctx.rng)
                w = dict(program=name, shape=shp, units=str(P.units(ops))[:500])
                ref = p.fn(*ops)
                ctx.sample(program=name, shape=shp, operands={k: str(x) for k, x in P.phys(ops).items()}, result={k: str(x) for k, x in P.phys(ref).items()})
                if p.jit:
                    with ctx.scope(f"jit:{name}", **w):
                        out = eqx.filter_jit(p.fn)(*ops)
                        ctx.ev("jit")
                        ctx.distinct(name, "jit", shp)
                        cmp(ctx, out, ref, p, f"jit:{name}", **w)
                if p.batch and p.vmap and shp:
                    ax = tuple(axes_of(o, n) for o in ops)
                    for mode in (["jitvmap"] if ctx.quick() else ["vmap", "jitvmap"]):
                        with ctx.scope(f"{mode}:{name}", **w):
                            f = eqx.filter_vmap(p.fn, in_axes=ax)
                            out = (eqx.filter_jit(f) if mode == "jitvmap" else f)(*ops)
                            ctx.ev("vmap")
                            ctx.distinct(name, mode, shp)
                            cmp(ctx, out, ref, p, f"{mode}:{name}", **w)
                    if len(shp) == 2 and not any(np.ndim(x) > 2 for o in ops for x in jax.tree.leaves(o)):
                        with ctx.scope(f"vmap1:{name}", **w):
                            a1 = tuple(axes_of(o, 2, 1) for o in ops)
                            out = eqx.filter_vmap(p.fn, in_axes=a1)(*ops)
                            ref1 = jax.tree.map(lambda x: np.moveaxis(np.asarray(x), 1, 0) if np.ndim(x) > 1 else x, ref)
                            ctx.ev("vmap")
                            cmp(ctx, out, ref1, p, f"vmap1:{name}", **w)
                    idx = range(n) if not ctx.quick() else [int(ctx.rng.integers(n))]
                    for i in idx:
                        with ctx.scope(f"element:{name}", i=i, **w):
                            one = p.fn(*[take(o, a, i) for o, a in zip(ops, ax)])
                            rax = jax.tree.map(lambda x: 0 if np.ndim(x) and np.shape(x)[0] == n else None, ref)
                            cmp(ctx, one, take(ref, rax, i), p, f"element:{name}", i=i, **w)
                            ctx.ev("element")
                            ctx.distinct(name, "element", shp)
    return run


def grad_case(name):
    def run(ctx):
        import jax
        import jax.numpy as jnp
        import equinox as eqx

        p = lib()[name]
        ops = P.operands(ctx.rng, p, (3,) if p.batch and not ctx.quick() else (), ctx.rng)
        w = dict(program=name, units=str(P.units(ops))[:500])
        leaves, td = jax.tree.flatten(tuple(ops))
        leaves = [jnp.asarray(x) for x in leaves]

        def f(*xs):
            out = p.fn(*jax.tree.unflatten(td, xs))
            return [x for x in jax.tree.leaves(out) if eqx.is_inexact_array(x)]

        with ctx.scope(f"grad:{name}", **w):
            fj = jax.jit(f)
            y0 = [np.asarray(y) for y in fj(*leaves)]
            if not y0 or any(np.iscomplexobj(y) for y in y0):
                return
            prol = "Prol" in name
            h = 1e-3 if prol else 1e-5
            for rep in range(1 if ctx.quick() else 3):
                d = [jnp.asarray(ctx.rng.normal(size=np.shape(x))) * (jnp.abs(x) + (0 if np.all(np.asarray(x)) else 1e-3)) for x in leaves]
                yp, jv = jax.jit(lambda xs, ds: jax.jvp(f, xs, ds))(tuple(leaves), tuple(d))

                def cd(h):
                    a = fj(*[x + h * v for x, v in zip(leaves, d)])
                    b = fj(*[x - h * v for x, v in zip(leaves, d)])
                    return [(np.asarray(i) - np.asarray(j)) / (2 * h) for i, j in zip(a, b)]

                e1, e2 = cd(h), cd(h / 2)
                ctx.ev("jvp")
                ctx.distinct(name, "jvp")
                for k, (y, t, a, b) in enumerate(zip(y0, jv, e1, e2)):
                    ctx.close(np.asarray(yp[k]), y, 1e-9 * np.max(np.abs(y), initial=0) + 1e-300 if not prol else 1e-6 * np.max(np.abs(y), initial=0) + 1e-300,
                              f"grad:{name}:primal", f"output {k}", **w)
                    ext = (4 * b - a) / 3  # Richardson
                    S = np.max(np.abs(y), initial=0) + np.max(np.abs(t), initial=0)
                    unc = np.abs(a - b) + (1e-3 if prol else 1e-7) * S
                    ctx.close(np.asarray(t), ext, unc, f"grad:{name}:jvp", f"output {k}: forward derivative against central differences", **w)
                cot = [jnp.asarray(ctx.rng.normal(size=np.shape(y)) / (np.max(np.abs(y), initial=0) + 1e-300)) for y in y0]
                back = jax.jit(lambda xs, c: jax.vjp(f, *xs)[1](c))(tuple(leaves), cot)
                lhs = sum(float(np.sum(np.asarray(c) * np.asarray(t))) for c, t in zip(cot, jv))
                rhs = sum(float(np.sum(np.asarray(g) * np.asarray(v))) for g, v in zip(back, d))
                mag = sum(float(np.sum(np.abs(np.asarray(c) * np.asarray(t)))) for c, t in zip(cot, jv)) + \
                    sum(float(np.sum(np.abs(np.asarray(g) * np.asarray(v)))) for g, v in zip(back, d))
                ctx.ev("vjp")
                ctx.close(rhs, lhs, (1e-5 if prol else 1e-9) * mag + 1e-300, f"grad:{name}:vjp", "reverse derivative is the adjoint of the forward one", **w)
    return run


# --------------------------------------------------------------------------------------------- pytrees
def same_object(ctx, a, b, mech, **w):
    ctx.check(type(a) is type(b), mech + ":type", f"{type(a)} {type(b)}", **w)
    pa, pb = P.phys(a), P.phys(b)
    ctx.check(P.same_units(P.units(a), P.units(b)), mech + ":units", f"{P.units(a)} {P.units(b)}", **w)
    ctx.check(set(pa) == set(pb), mech + ":structure", f"{set(pa) ^ set(pb)}", **w)
    for k in pb:
        if k in pa:
            ctx.check(pa[k][0] == pb[k][0] and np.asarray(pa[k][1]).dtype == np.asarray(pb[k][1]).dtype and np.array_equal(pa[k][1], pb[k][1], equal_nan=np.asarray(pb[k][1]).dtype.kind == "f"),
                      mech, f"{k}: {pa[k]} != {pb[k]}", **w)


def trips(ctx, x, mech, **w):
    import jax
    import equinox as eqx

    with ctx.scope(mech, **w):
        leaves, td = jax.tree.flatten(x)
        same_object(ctx, jax.tree.unflatten(td, leaves), x, mech + ":unflatten", **w)
        same_object(ctx, jax.tree.map(lambda y: y, x), x, mech + ":map", **w)
        l2, td2 = jax.tree.flatten(jax.tree.unflatten(td, leaves))
        ctx.check(td2 == td and len(l2) == len(leaves), mech + ":treedef", f"{td2} {td}", **w)
        ctx.check(len(leaves) > 0 or "Identity" in mech or "frame" in mech, mech + ":leaves", "no leaves", **w)
        dyn, st = eqx.partition(x, eqx.is_array)
        same_object(ctx, eqx.combine(dyn, st), x, mech + ":partition", **w)
        same_object(ctx, eqx.filter_jit(lambda y: y)(x), x, mech + ":jit-identity", **w)
        for tag, bad in (("abstract", jax.tree.map(lambda y: jax.ShapeDtypeStruct(np.shape(y), getattr(y, "dtype", np.float64)), x)), ("none", jax.tree.map(lambda y: None, x)), ("obj", jax.tree.map(lambda y: object(), x))):
            ctx.check(type(bad) is type(x), mech + ":placeholder", f"{tag}: {type(bad)}", **w)
        ctx.ev("pytree")
        ctx.distinct("pytree", type(x).__name__, mech)


def tree_case(name):
    def run(ctx):
        u, v = G.U(), G.vecs()
        for shp in ((), (3,), (2, 2)):
            if name in B.ND:
                f, o = B.ND[name]
                x = getattr(v, name)(u.Quantity(ctx.rng.normal(size=shp + (5,)), {0: "pc", 1: "km/s", 2: "km/s2"}[o]))
            elif name == "CartesianGeneric3D":
                x = v.CartesianGeneric3D(*[u.Quantity(ctx.rng.normal(size=shp), "kpc") for _ in "xyz"])
            else:
                x = B.build(name, B.sane(ctx.rng, name, shp))
            trips(ctx, x, f"pytree:{name}", shape=shp)
    return run


def others_case(ctx):
    import coordinax as cx
    import coordinax.ops as co
    from coordinax.angle import Angle
    from coordinax.distance import Distance, DistanceModulus, Parallax
    from coordinax.frames import ICRS, Galactocentric, NoFrame

    u, v = G.U(), G.vecs()
    rng = ctx.rng
    q3 = lambda un: u.Quantity(rng.normal(size=3), un)
    fv = v.FourVector(t=u.Quantity(1.5, "Gyr"), q=v.SphericalPos(r=u.Quantity(1.0, "pc"), theta=Angle(1.0, "rad"), phi=Angle(20.0, "deg")), c=u.Quantity(2.0, "km/s"))
    sp = cx.Space(length=v.CartesianPos3D.from_(q3("kpc")), speed=v.CartesianVel3D.from_(q3("km/s")))
    tr, bo, ro = co.GalileanSpatialTranslation.from_(q3("pc")), co.GalileanBoost.from_(q3("km/s")), co.GalileanRotation(P.rotation_matrix(rng))
    objs = {"FourVector": fv, "Space": sp, "Angle": Angle(rng.normal(size=3), "deg"), "Distance": Distance(np.array([1.0, 2.0]), "pc"),
            "Parallax": Parallax(2.0, "mas"), "ParallaxNeg": Parallax(-2.0, "mas", check_negative=False), "DistanceModulus": DistanceModulus(-3.0, "mag"),
            "translation": tr, "boost": bo, "velboost": co.VelocityBoost.from_(q3("km/s")), "rotation": ro, "Identity": co.Identity(), "pipe": tr | ro | bo,
            "galilean": co.GalileanOperator(rotation=ro, translation=v.FourVector(t=u.Quantity(1.0, "Myr"), q=v.CartesianPos3D.from_(q3("kpc"))), velocity=q3("km/s")),
            "sttrans": co.GalileanTranslation(fv.represent_as(v.CartesianPos3D) if hasattr(fv, "represent_as") and False else v.FourVector(t=u.Quantity(1.0, "Myr"), q=v.CartesianPos3D.from_(q3("kpc")))),
            "frame:ICRS": ICRS(), "frame:GCF": Galactocentric(), "frame:GCF2": Galactocentric(galcen=v.LonLatSphericalPos(lon=Angle(200.0, "deg"), lat=Angle(-20.0, "deg"), distance=u.Quantity(7.0, "kpc")),
                                                                                             z_sun=u.Quantity(-30.0, "pc"), roll=Angle(12.0, "deg"), galcen_v_sun=v.CartesianVel3D.from_(q3("km/s"))),
            "frame:NoFrame": NoFrame(), "frameop": ICRS().transform_op(Galactocentric()),
            "poincare": sp.represent_as(v.PoincarePolarVector)}
    for k, x in objs.items():
        trips(ctx, x, f"pytree:{k}")


def scan_case(ctx):
    """Vectors as carries and scanned inputs of JAX control flow."""
    import jax
    import jax.numpy as jnp
    u, v = G.U(), G.vecs()
    rng = ctx.rng
    n = 6
    with ctx.scope("scan:leapfrog"):
        q = v.CartesianPos3D.from_(u.Quantity(rng.normal(size=3), "kpc"))
        vel = v.CartesianVel3D.from_(u.Quantity(rng.normal(size=3), "kpc/Myr"))
        dt = u.Quantity(0.25, "Myr")

        def step(c, _):
            q2 = c + vel * dt
            return q2, q2.norm()

        out, norms = jax.lax.scan(step, q, None, length=n)
        want = np.asarray(M.cart(q)) + n * 0.25 * np.array([float(vel.d_x.value), float(vel.d_y.value), float(vel.d_z.value)])
        ctx.close(M.cart(out), want, 1e-12 * 10, "scan:leapfrog", "n steps of p = p + v dt")
        ctx.check(np.shape(norms.value) == (n,) and str(norms.unit) == "kpc", "scan:leapfrog:norms", f"{norms}")
        ctx.ev("scan")
    with ctx.scope("scan:map"):
        X = G.points(rng, 3, n, "plain") if "plain" in G.REGIMES else rng.normal(size=(n, 3)) * 3
        p = v.CartesianPos3D.from_(u.Quantity(X, "kpc"))
        out = jax.lax.map(lambda a: a.represent_as(v.SphericalPos), p)
        ctx.close(M.cart(out), X, 1e-10 * np.abs(X).max(), "scan:map", "lax.map of a conversion")
        ctx.ev("scan")
    with ctx.scope("scan:cond"):
        f = jax.jit(lambda b, a: jax.lax.cond(b, lambda x: x.represent_as(v.CylindricalPos), lambda x: (-1.0 * x).represent_as(v.CylindricalPos), a))
        for b, s in ((True, 1), (False, -1)):
            ctx.close(M.cart(f(b, p)), s * X, 1e-10 * np.abs(X).max(), "scan:cond", f"{b}")
        ctx.ev("scan")
    with ctx.scope("scan:jac"):
        # jacobian of spherical -> Cartesian at random points against the closed form
        for name in ("SphericalPos", "CylindricalPos", "MathSphericalPos", "LonLatSphericalPos", "ProlateSpheroidalPos"):
            c = M.coords_of(name, np.array([1.2, -0.7, 0.9]), 0.5)
            kw = {"Delta": u.Quantity(0.5, "kpc")} if "Prol" in name else {}
            keys = [k for k, _ in M.REPS[name][1]]

            def f(arr):
                qq = {k: u.Quantity(arr[i], M.STD[kind]) for i, (k, kind) in enumerate(M.REPS[name][1])}
                o = getattr(v, name)(**qq, **kw).represent_as(v.CartesianPos3D)
                return jnp.stack([o.x.value, o.y.value, o.z.value])

            x0 = jnp.asarray([float(c[k]) for k in keys])
            un = f(x0)
            scale = np.array([1.2, -0.7, 0.9]) / np.asarray(un)
            J = M.jac(name, {k: np.asarray(c[k]) for k in keys}, 0.5)
            for tag, jf in (("fwd", jax.jacfwd), ("rev", jax.jacrev), ("jitfwd", lambda g: jax.jit(jax.jacfwd(g)))):
                got = np.asarray(jf(f)(x0)) * scale[:, None]
                ctx.close(got, J, 1e-7 * np.abs(J).max(), f"scan:jac:{name}:{tag}", "Jacobian against the closed form")
            ctx.ev("scan")


def cases(tier):
    out = [("others", others_case), ("scan", scan_case)]
    L = lib()
    out += [(f"prog:{n}", prog_case(n)) for n in L]
    out += [(f"grad:{n}", grad_case(n)) for n in L if L[n].jit and not n.startswith("eq:")]
    out += [(f"tree:{n}", tree_case(n)) for n in list(B.FIELDS) + list(B.ND) + ["CartesianGeneric3D"]]
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

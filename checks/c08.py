"""C08: equality compares physical values element by element."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
from mon import model as M, gen as G, runtime as R, build as B

PROP = "C08"
RULE = ("per vector class: self/copy equality, equality of the same values stored in other units, one-ulp perturbation of one "
        "component of one element (exactly that element turns unequal), missing elements, NaN, signed zero, broadcasting, "
        "cross-representation equality against an independently computed verdict, unrelated types; via ==, jnp.equal and jit; "
        "distinct = (class, sub-check, component, shape, units)")
ASSUMPTIONS = ["equality after a unit conversion is required only where the conversion is exact in floating point",
               "across representations equality is required for points whose conversion is exact, inequality for points "
               "further apart than 1e-6"]
REQUIRED = {"equal": 300, "perturbed": 400, "units": 150, "cross": 60, "unrelated": 100, "jit": 30}


def eqarr(ctx, o, shp, mech, **w):
    a = np.asarray(o)
    ctx.check(a.dtype == bool, mech + ":dtype", f"{a.dtype}", **w)
    ctx.check(a.shape == shp, mech + ":shape", f"result shape {a.shape}, batch shape {shp}", **w)
    return a


def want(ctx, o, exp, mech, **w):
    a = eqarr(ctx, o, np.shape(exp), mech, **w)
    if a.shape == np.shape(exp):
        ctx.check(np.array_equal(a, exp), mech, f"got {a.tolist()}, expected {np.asarray(exp).tolist()}", **w)


def has_jnp(name):
    """quaxed.numpy acts on vectors that have an array value (Cartesian or 1D differentials, positions)."""
    o, _ = B.FIELDS[name]
    return name != "TwoSpherePos" if o == 0 else name.startswith("Cartesian")


ALT = {"kpc": ["pc", "Mpc"], "deg": ["arcmin", "arcsec"], "kpc2": [], "kpc/Myr": ["pc/Myr"], "deg/Myr": ["arcmin/Myr"],
       "kpc2/Myr": [], "kpc/Myr2": ["pc/Myr2"], "deg/Myr2": ["arcmin/Myr2"], "kpc2/Myr2": []}


def exact(v, un, alt):
    """Values of v [un] expressible exactly in alt, in both conversion directions."""
    f, g = M.factor(un, alt), M.factor(alt, un)
    raw = np.round(v * f, 9)
    ok = np.all(raw * g == v) and np.all(raw / f == v) and np.all(v * f == raw) and np.all(v / g == raw)
    return raw if ok else None


def same_case(name):
    def run(ctx):
        import jax, copy
        import quaxed.numpy as jnp
        order, comps = B.FIELDS[name]
        for shp in ((), (4,), G.deep(ctx.rng)):
            for rep in range(2 if ctx.quick() else 12):
                vals = B.sane(ctx.rng, name, shp, ints=True)
                w = dict(cls=name, shape=shp)
                with ctx.scope("same", **w):
                    a, b = B.build(name, vals), B.build(name, vals)
                    T = np.ones(shp, bool)
                    for o in (a == a, a == b, a == copy.deepcopy(a), a == +a) + ((jnp.equal(a, b),) if has_jnp(name) else ()):
                        want(ctx, o, T, "self", **w)
                        ctx.ev("equal")
                    want(ctx, jax.jit(lambda x, y: x == y)(a, b), T, "jit", **w)
                    ctx.ev("jit")
                    # != is the negation (scalars)
                    if shp == ():
                        ctx.check(not bool(a != b), "ne", "a != b for equal scalars", **w)
                    ctx.distinct("same", name, shp)
                # ---- other units
                for k, kind in comps:
                    un = B.unit_of(name, k)
                    for alt in ALT[un]:
                        raw = exact(vals[k], un, alt)
                        if raw is None:
                            continue
                        vv = dict(vals); vv[k] = raw
                        with ctx.scope("units", comp=k, alt=alt, **w):
                            c = B.build(name, vv, {k: alt})
                            want(ctx, a == c, T, "units", comp=k, alt=alt, **w)
                            want(ctx, c == a, T, "units", comp=k, alt=alt, **w)
                            ctx.ev("units"); ctx.distinct("units", name, k, alt, shp)
                            # same number, other unit: different value
                            dd = B.build(name, vals if order or kind != "A" else vals, {k: alt})
                            nz = vals[k] != 0
                            want(ctx, a == dd, ~nz, "units:number", comp=k, alt=alt, **w)
                # ---- one-ulp perturbations
                for k, kind in comps:
                    for i in ([()] if shp == () else [tuple(int(ctx.rng.integers(s)) for s in shp)]):
                        for up in (np.inf, -np.inf):
                            vv = {q: x.copy() for q, x in vals.items()}
                            if vv[k][i] == 0:  # subnormal neighbours are flushed to zero
                                continue
                            vv[k][i] = np.nextafter(vv[k][i], up)
                            E = T.copy(); E[i] = False
                            with ctx.scope("perturb", comp=k, **w):
                                c = B.build(name, vv)
                                want(ctx, a == c, E, "perturb", comp=k, index=i, **w)
                                want(ctx, c == a, E, "perturb", comp=k, index=i, **w)
                                if has_jnp(name):
                                    want(ctx, jnp.equal(a, c), E, "perturb:jnp", comp=k, index=i, **w)
                                ctx.ev("perturbed"); ctx.distinct("ulp", name, k, i, up > 0)
                        vv = {q: x.copy() for q, x in vals.items()}
                        if order:
                            vv[k][i] = np.nan
                            E = T.copy(); E[i] = False
                            with ctx.scope("nan", comp=k, **w):
                                c = B.build(name, vv)
                                want(ctx, c == c, E, "nan", comp=k, **w)
                                want(ctx, a == c, E, "nan", comp=k, **w)
                # ---- signed zero
                if order or name.startswith("Cartesian"):
                    z1 = {k: np.zeros(shp) for k, _ in comps}
                    z2 = {k: -np.zeros(shp) for k, _ in comps}
                    with ctx.scope("zero", **w):
                        want(ctx, B.build(name, z1) == B.build(name, z2), T, "zero", **w)
        # broadcasting: scalar against batch, size-1 axes, components of different shapes
        for sa, sb in (((), (4,)), ((4,), ()), ((2, 1), (1, 3)), ((1,), (5,))):
            with ctx.scope("broadcast", cls=name, shapes=(sa, sb)):
                va, vb = B.sane(ctx.rng, name, sa, True), B.sane(ctx.rng, name, sb, True)
                # make some elements agree
                for k, _ in comps:
                    full = np.broadcast_to(va[k], np.broadcast_shapes(sa, sb))
                    if sa == ():
                        vb[k][0] = va[k]
                    elif sb == ():
                        vb[k] = va[k][-1]
                    elif sa == (1,):
                        vb[k][2] = va[k][0]
                    else:
                        vb[k][0, 1] = va[k][1, 0]
                E = np.ones(np.broadcast_shapes(sa, sb), bool)
                for k, _ in comps:
                    E = E & (va[k] == vb[k])
                assert E.any()
                want(ctx, B.build(name, va) == B.build(name, vb), E, "broadcast", cls=name, shapes=(sa, sb))
                ctx.ev("equal"); ctx.distinct("bc", name, sa, sb)
        if len(comps) > 1:
            with ctx.scope("component-shapes", cls=name):
                va = B.sane(ctx.rng, name, (3,), True)
                k0 = comps[0][0]
                va[k0] = np.full(3, va[k0][0])
                vb = dict(va); vb[k0] = va[k0][0]
                want(ctx, B.build(name, va) == B.build(name, vb), np.ones(3, bool), "component-shapes", cls=name)
                want(ctx, B.build(name, vb) == B.build(name, va), np.ones(3, bool), "component-shapes", cls=name)
                vb[comps[1][0]] = va[comps[1][0]] + np.array([0, 1.0 if comps[1][1] != "L2" else 0.01, 0])
                want(ctx, B.build(name, vb) == B.build(name, va), np.array([True, False, True]), "component-shapes", cls=name)
                ctx.ev("equal", 3); ctx.distinct("cshape", name)
        # an azimuth a full turn away is the same azimuth
        az = M.AZIMUTH.get(name)
        if az:
            with ctx.scope("azimuth-turn", cls=name):
                va = B.sane(ctx.rng, name, (4,), True)
                vb = dict(va); vb[az] = va[az] + np.array([360.0, -360.0, 720.0, 0.0])
                want(ctx, B.build(name, va) == B.build(name, vb), np.ones(4, bool), "azimuth-turn", cls=name)
                ctx.ev("equal"); ctx.distinct("turn", name)
    return run


def cross_case(i):
    """Different representations: exact points equal, distinct points unequal, and == agrees with converting first."""
    def run(ctx):
        v = G.vecs()
        n = 5
        r = ctx.rng.integers(1, 60, n).astype(float)
        s = ctx.rng.integers(-60, 61, n).astype(float)
        z = np.zeros(n)
        build = lambda name, **vals: B.build(name, {k: np.asarray(x, float) for k, x in vals.items()})
        c3 = lambda x, y, z_: build("CartesianPos3D", x=x, y=y, z=z_)
        pairs = [(c3(r, z, s), build("CylindricalPos", rho=r, phi=z, z=s), "cyl"),
                 (c3(z, z, r), build("SphericalPos", r=r, theta=z, phi=z), "sph"),
                 (c3(z, z, r), build("MathSphericalPos", r=r, theta=z, phi=z), "msph"),
                 (build("CartesianPos1D", x=r), build("RadialPos", r=r), "radial"),
                 (build("RadialPos", r=r), build("CartesianPos1D", x=r), "radial2"),
                 (build("CartesianPos2D", x=r, y=z), build("PolarPos", r=r, phi=z), "polar"),
                 (build("PolarPos", r=r, phi=z), build("CartesianPos2D", x=r, y=z), "polar2"),
                 (build("CylindricalPos", rho=r, phi=z, z=s), c3(r, z, s), "cyl2"),
                 (build("SphericalPos", r=r, theta=z + 40, phi=z + 70), build("MathSphericalPos", r=r, theta=z + 70, phi=z + 40), "sm"),
                 (build("MathSphericalPos", r=r, theta=z + 70, phi=z + 40), build("SphericalPos", r=r, theta=z + 40, phi=z + 70), "ms"),
                 (build("SphericalPos", r=r, theta=z + 40, phi=z + 70), build("LonLatSphericalPos", lon=z + 70, lat=z + 50, distance=r), "sl"),
                 (build("LonLatSphericalPos", lon=z + 70, lat=z + 50, distance=r), build("SphericalPos", r=r, theta=z + 40, phi=z + 70), "ls")]
        for a, b, tag in pairs:
            w = dict(left=type(a).__name__, right=type(b).__name__)
            with ctx.scope("cross", **w):
                want(ctx, a == b, np.ones(n, bool), "cross:equal", **w)
                ctx.ev("cross"); ctx.distinct("cross", tag, n)
        # generic points: decided by distance
        for d, fam in ((1, M.POS1), (2, M.POS2), (3, M.POS3)):
            for A_, B_ in itertools.permutations(fam, 2):
                w = dict(left=A_, right=B_)
                X = np.abs(G.points(ctx.rng, d, 4, "octants"))
                Y = X.copy(); Y[1] *= 1.001; Y[3, -1] *= 0.99
                D = 0.4 * float(np.sqrt((X**2).sum(-1)).min())
                with ctx.scope("cross", **w):
                    a, _, _ = G.make_pos(ctx.rng, A_, X, D, disttype="q")
                    b, _, _ = G.make_pos(ctx.rng, B_, Y, D, disttype="q")
                    got = eqarr(ctx, a == b, (4,), "cross", **w)
                    ctx.check(not got[1] and not got[3], "cross:different", f"{got}", **w)
                    kw = {"Delta": G.quantity(D, "kpc")} if A_.startswith("Prol") else {}
                    want(ctx, a == b.represent_as(getattr(v, A_), **kw), got, "cross:convert", **w)
                    ctx.ev("cross"); ctx.distinct("crossg", A_, B_)
    return run


def prolate_case(ctx):
    with ctx.scope("prolate"):
        vals = B.sane(ctx.rng, "ProlateSpheroidalPos", (3,), True)
        vals["mu"] = vals["mu"] + 3
        vals["nu"] = np.abs(vals["nu"]) * 0.5 + 0.125
        a, b = B.build("ProlateSpheroidalPos", vals, Delta=1.0), B.build("ProlateSpheroidalPos", vals, Delta=1.25)
        want(ctx, a == b, np.zeros(3, bool), "prolate:Delta")
        c = B.build("ProlateSpheroidalPos", vals, Delta=G.quantity(1000.0, "pc")) if False else \
            B.build("ProlateSpheroidalPos", vals, Delta=1.0)
        want(ctx, a == c, np.ones(3, bool), "prolate:same")
        e = B.build("ProlateSpheroidalPos", vals) 
        from dataclassish import replace
        f = type(e)(mu=e.mu, nu=e.nu, phi=e.phi, Delta=G.quantity(1000.0, "pc"))
        want(ctx, a == f, np.ones(3, bool), "prolate:Delta-units")
        ctx.ev("equal", 3); ctx.distinct("prolate")


def nd_case(ctx):
    v = G.vecs()
    import quaxed.numpy as jnp
    for name, (f, o) in B.ND.items():
        un, alt = [("kpc", "pc"), ("kpc/Myr", "pc/Myr"), ("kpc/Myr2", "pc/Myr2")][o]
        for shp in ((), (3,), (2, 2), (2, 1, 3)):
            for N in (1, 2, 4):
                w = dict(cls=name, shape=shp, N=N)
                with ctx.scope("nd", **w):
                    x = ctx.rng.integers(-9, 10, shp + (N,)).astype(float)
                    cls = getattr(v, name)
                    a = cls(G.quantity(x, un))
                    T = np.ones(shp, bool)
                    want(ctx, a == cls(G.quantity(x, un)), T, "nd:self", **w)
                    if np.all((x * 1000) * M.factor(alt, un) == x):
                        want(ctx, a == cls(G.quantity(x * 1000, alt)), T, "nd:units", **w)
                    i = tuple(int(ctx.rng.integers(s)) for s in shp)
                    y = x.copy(); y[i + (N - 1,)] += 1
                    E = T.copy(); E[i] = False
                    want(ctx, a == cls(G.quantity(y, un)), E, "nd:perturb", **w)
                    ctx.ev("equal"); ctx.distinct("nd", name, shp, N)


def four_case(ctx):
    v = G.vecs()
    for shp in ((), (3,)):
        for rep in ("CartesianPos3D", "SphericalPos"):
            with ctx.scope("four", rep=rep, shape=shp):
                vals = B.sane(ctx.rng, rep, shp, True)
                t = ctx.rng.integers(-9, 10, shp).astype(float)
                mk = lambda t_, vv, un="Myr", **k: v.FourVector(t=G.quantity(t_, un), q=B.build(rep, vv), **k)
                a = mk(t, vals)
                T = np.ones(shp, bool)
                want(ctx, a == mk(t, vals), T, "four:self")
                t2 = t.copy() if shp else t + 0
                if shp:
                    t2[1] += 1; E = T.copy(); E[1] = False
                else:
                    t2, E = t + 1, ~T
                want(ctx, a == mk(t2, vals), E, "four:time")
                k = B.FIELDS[rep][1][-1][0]
                vv = {q: x.copy() for q, x in vals.items()}
                vv[k] = vv[k] + np.asarray(~E, float)
                want(ctx, a == mk(t, vv), E, "four:space")
                want(ctx, a == mk(t, vals, c=G.quantity(1.0, "km/s")), ~T, "four:c")
                ctx.ev("equal", 3); ctx.distinct("four", rep, shp)


def unrelated_case(name):
    def run(ctx):
        o, comps = B.FIELDS[name]
        a = B.build(name, B.sane(ctx.rng, name, (), True))
        others = [None, 1, 1.0, "x", (1, 2), {}, object(), np.nan]
        order = {0: [n for n in B.VEL + B.ACC], 1: B.POS + B.ACC + [n for n in B.VEL if n != name],
                 2: B.POS + B.VEL + [n for n in B.ACC if n != name]}[o]
        for n in order:
            if n.startswith("TwoSphere") and name.startswith("TwoSphere"):
                pass
            others.append(B.build(n, B.sane(ctx.rng, n, (), True)))
        for x in others:
            w = dict(cls=name, other=type(x).__name__)
            for tag, fn in (("l", lambda: a == x), ("r", lambda: x == a)):
                try:
                    r = fn()
                except Exception:  # refusing the comparison is not claiming equality
                    ctx.ev("unrelated"); ctx.evals += 1
                    continue
                ctx.check(not np.any(np.asarray(r)), "unrelated", f"comparison is {r!r}", **w)
                ctx.ev("unrelated"); ctx.distinct("unrel", name, type(x).__name__, tag)
    return run


def dist_case(name):
    """Components given as Distance compare like the plain quantity; parallaxes and distance moduli among themselves."""
    def run(ctx):
        from coordinax.distance import Distance, Parallax, DistanceModulus
        c = M.DISTCOMP[name]
        vals = B.sane(ctx.rng, name, (4,), True)
        with ctx.scope("distance", cls=name):
            a = B.build(name, vals)
            b = B.build(name, vals, wrap={c: lambda x, un: Distance(x, un)})
            want(ctx, a == b, np.ones(4, bool), "distance", cls=name)
            want(ctx, b == a, np.ones(4, bool), "distance", cls=name)
            vv = {k: x.copy() for k, x in vals.items()}
            vv[c][2] += 1
            d = B.build(name, vv, wrap={c: lambda x, un: Distance(x, un)})
            want(ctx, a == d, np.array([1, 1, 0, 1], bool), "distance", cls=name)
            for T, un in ((Parallax, "mas"), (DistanceModulus, "mag")):
                p = B.build(name, vals, {c: un}, wrap={c: lambda x, un: T(np.asarray(x), un)})
                p2 = B.build(name, vv, {c: un}, wrap={c: lambda x, un: T(np.asarray(x), un)})
                want(ctx, p == p, np.ones(4, bool), "distance:" + T.__name__, cls=name)
                want(ctx, p == p2, np.array([1, 1, 0, 1], bool), "distance:" + T.__name__, cls=name)
            ctx.ev("equal", 6); ctx.distinct("dist", name)
        # a parallax / distance modulus / distance denoting the same length: 10 pc <-> 100 mas <-> 0 mag
        for reg in (("Parallax", lambda d: Parallax(np.arctan(M.AU_KPC / d), "rad")),
                    ("DistanceModulus", lambda d: DistanceModulus(5 * np.log10(d * 1e3) - 5, "mag"))):
            with ctx.scope("mixed-distance-types", cls=name, kind=reg[0]):
                kw = {c: (lambda x, un: reg[1](np.asarray(x)))}
                p = B.build(name, vals, wrap=kw)
                far = {k: x.copy() for k, x in vals.items()}
                far[c] = far[c] * 2
                import dataclasses
                same = dataclasses.replace(p, **{c: getattr(p, c).distance})
                want(ctx, p == same, np.ones(4, bool), "mixed-distance-types", cls=name)
                want(ctx, same == p, np.ones(4, bool), "mixed-distance-types", cls=name)
                ctx.check(not np.any(np.asarray(B.build(name, far) == p)), "mixed-distance-types", "twice the distance is equal", cls=name)
                ctx.check(not np.any(np.asarray(p == B.build(name, far))), "mixed-distance-types", "twice the distance is equal", cls=name)
                ctx.ev("equal"); ctx.distinct("mixdist", name, reg[0])
    return run


def cases(tier):
    out = [(f"same:{n}", same_case(n)) for n in B.FIELDS]
    out += [(f"cross:{i}", cross_case(i)) for i in range(2 if tier == "quick" else 40)]
    out += [(f"dist:{n}", dist_case(n)) for n in M.DISTCOMP]
    out += [(f"unrelated:{n}", unrelated_case(n)) for n in B.FIELDS]
    out += [("prolate", prolate_case), ("nd", nd_case), ("four", four_case)]
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

"""C02: positions stay in canonical range; invalid input is rejected."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
from mon import model as M, gen as G, runtime as R, instrument as I

PROP = "C02"
RULE = ("online monitor on every position object constructed while conversion/arithmetic/constructor workloads run, "
        "plus constructor probes: boundary values (accepted, stored) and single bad elements (rejected) per class, "
        "component, unit, batch shape, element index and type-checking mode; distinct = those tuples")
ASSUMPTIONS = ["rejection is checked for concrete values (under jit the library documents no check)"]
REQUIRED = {"constructed": 300, "rejected": 400, "accepted": 300, "azimuth_wrapped": 100, "jit_result": 10}
WORKERS = 8
MODES = [{"COORDINAX_ENABLE_RUNTIME_TYPECHECKING": "None"},
         {"COORDINAX_ENABLE_RUNTIME_TYPECHECKING": "beartype.beartype"}]

LENS = ["kpc", "m", "AU"]
ANGS = ["deg", "rad", "arcmin", "mas"]
PI = {"deg": 180.0, "rad": np.pi, "arcmin": 10800.0, "mas": 648000000.0}


def q(v, un):
    return G.quantity(np.asarray(v, dtype=float), un)


def good(name, shp=()):
    o = np.ones(shp)
    d = {"RadialPos": dict(r=q(2 * o, "kpc")),
         "PolarPos": dict(r=q(2 * o, "kpc"), phi=q(30 * o, "deg")),
         "TwoSpherePos": dict(theta=q(40 * o, "deg"), phi=q(30 * o, "deg")),
         "CylindricalPos": dict(rho=q(2 * o, "kpc"), phi=q(30 * o, "deg"), z=q(-1 * o, "kpc")),
         "SphericalPos": dict(r=q(2 * o, "kpc"), theta=q(40 * o, "deg"), phi=q(30 * o, "deg")),
         "MathSphericalPos": dict(r=q(2 * o, "kpc"), theta=q(30 * o, "deg"), phi=q(40 * o, "deg")),
         "LonLatSphericalPos": dict(lon=q(30 * o, "deg"), lat=q(-40 * o, "deg"), distance=q(2 * o, "kpc")),
         "ProlateSpheroidalPos": dict(mu=q(3 * o, "kpc2"), nu=q(-0.5 * o, "kpc2"), phi=q(30 * o, "deg"), Delta=q(1.0, "kpc"))}
    return d[name]


RADIAL = {"RadialPos": "r", "PolarPos": "r", "CylindricalPos": "rho", "SphericalPos": "r", "MathSphericalPos": "r",
          "LonLatSphericalPos": "distance"}
NAMES = ["RadialPos", "PolarPos", "TwoSpherePos", "CylindricalPos", "SphericalPos", "MathSphericalPos",
         "LonLatSphericalPos", "ProlateSpheroidalPos"]


def variants(shp, goodv, badv):
    """Arrays of shape shp where exactly one element (each in turn, capped) is bad."""
    n = int(np.prod(shp, dtype=int))
    for i in sorted({0, n // 2, n - 1}):
        a = np.full(n, float(goodv))
        a[i] = badv
        yield i, a.reshape(shp)


def reject_case(name):
    def run(ctx):
        v = G.vecs()
        from coordinax.distance import Distance
        from coordinax.angle import Angle
        cls = getattr(v, name)

        def probe(shp, comp, arr, un, i, wrap=None):
            if ctx.quick() and shp and ctx.rng.random() < 0.7:
                return
            kw = good(name, shp)
            kw[comp] = wrap(arr, un) if wrap else q(arr, un)
            ctx.must_raise(lambda: cls(**kw), f"reject:{comp}", msg=f"{name}({comp}={arr!r} {un})", cls=name, shape=shp, index=i)
            ctx.ev("rejected"); ctx.distinct("rej", name, comp, un, shp, i, wrap is None, float(np.min(arr)), ctx.mode)

        for shp in [(), (3,), G.deep(ctx.rng)]:
            if name in RADIAL:
                c = RADIAL[name]
                for un in LENS:
                    for b in (-1.0, -1e-12, -1e9):
                        for i, a in variants(shp, 1.0, b):
                            probe(shp, c, a, un, i)
                            if name != "CylindricalPos" and b == -1.0:
                                probe(shp, c, a, un, i, lambda x, y: Distance(x, y))
            pk = M.POLARANG.get(name)
            if pk:
                for un in ANGS:
                    p = PI[un]
                    lo, hi = (-p / 2, p / 2) if pk == "lat" else (0.0, p)
                    for b in (lo - 1e-9 * p, hi + 1e-9 * p, lo - p, hi + p, hi + 2 * p):
                        for i, a in variants(shp, 0.25 * p, b):
                            probe(shp, pk, a, un, i)
                            if b > hi + p / 2 or b < lo - p / 2:
                                probe(shp, pk, a, un, i, lambda x, y: Angle(x, y))
            if name == "ProlateSpheroidalPos":
                for un, f in (("kpc2", 1.0), ("pc2", 1e6), ("AU2", M.factor("kpc2", "AU2"))):
                    for i, a in variants(shp, 2.0, 1 - 1e-6):
                        probe(shp, "mu", a * f, un, i)
                    for i, a in variants(shp, 2.0, -3.0):
                        probe(shp, "mu", a * f, un, i)
                    for b in (1 + 1e-6, -1 - 1e-6, 2.5, -30.0):
                        for i, a in variants(shp, 0.3, b):
                            probe(shp, "nu", a * f, un, i)
                for un in ("kpc", "pc"):
                    for b in (0.0, -1.0, -1e-9):
                        probe(shp, "Delta", np.asarray(b), un, 0)
                # a focal length too large for mu, too small for nu
                probe(shp, "Delta", np.asarray(2.0), "kpc", 0)
                probe(shp, "Delta", np.asarray(0.5), "kpc", 0)
                probe(shp, "Delta", np.asarray(2000.0), "pc", 0)
    return run


def accept_case(name):
    def run(ctx):
        v = G.vecs()
        cls = getattr(v, name)

        def probe(comp, arr, un, std, **over):
            shp = np.shape(arr)
            kw = good(name, shp)
            kw.update(over)
            kw[comp] = q(arr, un)
            w = dict(cls=name, comp=comp, unit=un, value=arr)
            with ctx.scope("accept", **w):
                obj = cls(**kw)
                got = getattr(obj, comp)
                ctx.check(str(got.unit) == str(q(1.0, un).unit), "accept:unit", f"unit {got.unit} != {un}", **w)
                ctx.close(np.asarray(got.value), np.asarray(arr, dtype=float), 0, "accept:stored", f"{name}.{comp}", **w)
                e = I.range_errors(obj)
                ctx.check(not e, "accept:range", str(e), **w)
            ctx.ev("accepted"); ctx.distinct("acc", name, comp, un, shp, float(np.max(arr)) if np.size(arr) else 0, ctx.mode)

        for un in LENS:
            if name in RADIAL:
                for a in (0.0, 1e-300, 1e300, np.array([0.0, 5.0]), np.zeros((2, 2)), np.array([])):
                    probe(RADIAL[name], a, un, "kpc")
        pk = M.POLARANG.get(name)
        if pk:
            for un in ANGS:
                p = PI[un]
                lo, hi = (-p / 2, p / 2) if pk == "lat" else (0.0, p)
                # the boundary itself is representable in deg and rad; elsewhere stay a rounding error inside
                lo, hi = (lo, hi) if un in ("deg", "rad") else (lo * (1 - 1e-12), hi * (1 - 1e-12))
                for a in (lo, hi, np.array([lo, hi]), np.array([[lo], [0.5 * hi]])):
                    probe(pk, a, un, "rad")
        if name == "ProlateSpheroidalPos":
            for D in (1.0, 0.25, 8.0):
                Dq = {"Delta": q(D, "kpc")}
                for a in (D * D, np.array([D * D, 9 * D * D])):
                    probe("mu", a, "kpc2", "kpc2", nu=q(0.5 * D * D * np.ones(np.shape(a)), "kpc2"), **Dq)
                for a in (D * D, -D * D, 0.0, np.array([-D * D, D * D])):
                    probe("nu", a, "kpc2", "kpc2", mu=q(3 * D * D * np.ones(np.shape(a)), "kpc2"), **Dq)
        az = M.AZIMUTH.get(name)
        if az:
            from coordinax.angle import Angle
            for un in ANGS:
                p = PI[un]
                a = np.array([0, 0.5, 1, 1.5, 1.999, 2, 2.001, -0.001, -0.5, -1, -2, -3.25, 5.5, 40.25, -77.75]) * p
                for arr in (a, a.reshape(5, 3), a[7], a[5]):
                    w = dict(cls=name, comp=az, unit=un)
                    with ctx.scope("azimuth", **w):
                        kw = good(name, np.shape(arr))
                        kw[az] = q(arr, un)
                        obj = cls(**kw)
                        e = I.azimuth_errors(obj, name, kw[az])
                        ctx.evals += int(np.size(arr))
                        ctx.check(not e, "azimuth:wrap", str(e), **w)
                        # an explicit Angle is kept as given (documented opt-out), and so is an in-range one
                        kw[az] = Angle(np.asarray(arr), un)
                        o2 = cls(**kw)
                        d = (I._vals(getattr(o2, az), "deg") - np.asarray(arr) * M.factor(un, "deg") + 180) % 360 - 180
                        ctx.close(d, 0 * d, 1e-7, "azimuth:angle", "Angle azimuth moved", **w)
                    ctx.ev("azimuth_wrapped"); ctx.distinct("az", name, un, np.shape(arr), ctx.mode)
    return run


def mode2_case(name):
    """Distance moduli and parallaxes are legitimate radial coordinates whatever their sign conventions."""
    def run(ctx):
        from coordinax.distance import DistanceModulus, Parallax
        v = G.vecs()
        c = M.DISTCOMP[name]
        for val in (-4.0, 0.0, 3.0, np.array([-2.0, 5.0])):
            with ctx.scope("accept-distmod", cls=name):
                kw = good(name, np.shape(val)); kw[c] = DistanceModulus(np.asarray(val), "mag")
                o = getattr(v, name)(**kw)
                ctx.close(M.dist_kpc(getattr(o, c)), 10 ** (np.asarray(val) / 5 + 1) * 1e-3, 1e-12 * 10, "accept-distmod:value")
                ctx.ev("accepted"); ctx.distinct("dm", name, np.shape(val), ctx.mode)
        for val in (0.5, np.array([1.0, 20.0])):
            with ctx.scope("accept-parallax", cls=name):
                kw = good(name, np.shape(val)); kw[c] = Parallax(np.asarray(val), "mas")
                o = getattr(v, name)(**kw)
                p = np.asarray(val) * M.factor("mas", "rad")
                ctx.close(M.dist_kpc(getattr(o, c)), M.AU_KPC / np.tan(p), 1e-10, "accept-parallax:value")
                ctx.ev("accepted"); ctx.distinct("plx", name, np.shape(val), ctx.mode)
    return run


def workload_case(A, d, reg):
    """Conversions and arithmetic under the construction monitor."""
    def run(ctx):
        v = G.vecs()
        rng = ctx.rng
        fam = {1: M.POS1, 2: M.POS2, 3: M.POS3}[d]
        D = 1.0
        with I.watch_construction(ctx):
            X = G.points(rng, d, 8, reg)
            Y = G.points(rng, d, 8, "octants")
            if d == 1:
                X, Y = np.abs(X), np.abs(Y)
            with ctx.scope("workload", cls=A, regime=reg):
                a, _, _ = G.make_pos(rng, A, X, D)
                for B in fam:
                    kw = {"Delta": G.quantity(D, "kpc")} if B == "ProlateSpheroidalPos" else {}
                    b = a.represent_as(getattr(v, B), **kw)
                    ctx.ev("op")
                    if A != "ProlateSpheroidalPos" and B != "ProlateSpheroidalPos":
                        c, _, _ = G.make_pos(rng, B, Y, D, units="std")
                        a2, _, _ = G.make_pos(rng, A, X, D, units="std")
                        r = [a2 + c] + ([a2 - c] if d > 1 else []) + [2.5 * a2]
                        if d > 1:
                            r += [-a2, a2 / 2.0]
                        for o in r:
                            e = I.range_errors(o)
                            ctx.check(not e, "result:range", str(e), cls=A, other=B, regime=reg)
                            ctx.ev("op")
                    ctx.distinct("work", A, B, reg, ctx.mode)
    return run


def jit_case(A):
    def run(ctx):
        import jax
        v = G.vecs()
        d = M.REPS[A][0]
        fam = {1: M.POS1, 2: M.POS2, 3: M.POS3}[d]
        X = np.concatenate([G.points(ctx.rng, d, 8, r) for r in ("octants", "axes", "planes")])
        if d == 1:
            X = np.abs(X)
        for B in fam:
            if "Prol" in A + B:
                continue
            with ctx.scope("jit", src=A, dst=B):
                a, _, _ = G.make_pos(ctx.rng, A, X, units="std", disttype="Distance")
                for o in (jax.jit(lambda p: p.represent_as(getattr(v, B)))(a), jax.vmap(lambda p: p.represent_as(getattr(v, B)))(a)):
                    e = I.range_errors(o)
                    ctx.check(not e, "jit:range", str(e), src=A, dst=B)
                    ctx.ev("jit_result"); ctx.distinct("jit", A, B, ctx.mode)
    return run


def cases(tier):
    out = []
    for n in NAMES:
        out.append((f"reject:{n}", reject_case(n)))
        out.append((f"accept:{n}", accept_case(n)))
        if n in M.DISTCOMP:
            out.append((f"distlike:{n}", mode2_case(n)))
    regs = ["octants", "axes"] if tier == "quick" else G.REGIMES * 6
    for i, reg in enumerate(regs):
        for d, fam in {1: M.POS1, 2: M.POS2, 3: M.POS3}.items():
            for A in fam:
                if d == 1 and reg in ("axes",):
                    pass
                out.append((f"work:{A}:{reg}:{i}", workload_case(A, d, reg)))
    for A in M.POS2 + M.POS3:
        if A != "ProlateSpheroidalPos":
            out.append((f"jit:{A}", jit_case(A)))
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

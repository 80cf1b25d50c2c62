"""C01: same-dimension position conversion preserves the geometric point."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
from mon import model as M, gen as G, runtime as R

PROP = "C01"
RULE = ("a case converts a batch of points of one regime (generic, octants, axes, planes, near-axis, tiny, huge, "
        "branch cut, integer lattice, origin, foci) from one representation to another (or along a random chain); "
        "distinct = (source class, target class, regime, component units/types, Delta); the oracle is the "
        "independent point computed from the raw numbers")
ASSUMPTIONS = ["float64 (jax_enable_x64); tolerance grows to sqrt(eps) only within sqrt(eps) of the polar axis"]
REQUIRED = {"conversion": 900, "chain": 20, "scalar": 30, "origin": 20, "jit": 10}
WORKERS = 8

FAM = {1: M.POS1, 2: M.POS2, 3: M.POS3}
DELTAS = [0.3, 1.0, 4.0, 50.0]


def judge(ctx, out, B, Xt, tol, mech, **w):
    ctx.check(type(out).__name__ == B, mech + ":type", f"returned {type(out).__name__}, asked for {B}", **w)
    got = M.cart(out)
    ctx.close(got, Xt, tol, mech + ":point", f"{w}: point moved", **w)


def kwargs_for(B, D):
    return {"Delta": G.quantity(D, "kpc")} if B == "ProlateSpheroidalPos" else {}


def pair_case(A, B, d, nrep):
    def run(ctx):
        from coordinax import represent_as
        v = G.vecs()
        if A == B == "RadialPos" or True:
            pass
        for rep in range(nrep):
            for reg in G.REGIMES:
                rng = ctx.rng
                n = 12
                X = G.points(rng, d, n, reg)
                if d == 1 and A == "CartesianPos1D" and B == "RadialPos":
                    X = np.abs(X)  # a negative x has no radial form (rejected; C02)
                if A == "ProlateSpheroidalPos" or B == "ProlateSpheroidalPos":
                    S = np.sqrt((X**2).sum(-1)).max() or 1.0
                    DA, DB = [float(G.pick(rng, [0.3, 1.0, 3.0]) * (S if reg in ("tiny", "huge") else G.pick(rng, [1.0, 1.0, S])))
                              for _ in range(2)]
                else:
                    DA = DB = None
                w = dict(source=A, target=B, regime=reg, Delta=(DA, DB))
                with ctx.scope("convert", **w):
                    vec, Xt, info = G.make_pos(rng, A, X, DA)
                    w["units"] = info["units"]
                    kw = kwargs_for(B, DB)
                    out = vec.represent_as(getattr(v, B), **kw) if rep % 2 == 0 else represent_as(vec, getattr(v, B), **kw)
                    Dm = max([x for x in (DA, DB) if x is not None], default=None)
                    t = M.tol_point(Xt, Dm, hops=3)
                    judge(ctx, out, B, Xt, t, "convert", **w)
                    ctx.ev("conversion"); ctx.ev("points", n)
                    ctx.distinct(A, B, reg, sorted(info["units"].items()), DA, DB)
                    ctx.sample(source=A, target=B, regime=reg, point=Xt[0], units=info["units"])
                    # and back
                    kw = kwargs_for(A, DA)
                    if A == "RadialPos" or B == "RadialPos":
                        pass
                    back = out.represent_as(getattr(v, A), **kw)
                    judge(ctx, back, A, Xt, 2 * t, "roundtrip", **w)
                    ctx.ev("conversion")
        # origin
        if True:
            w = dict(source=A, target=B, regime="origin")
            D = 2.0 if "ProlateSpheroidalPos" in (A, B) else None
            with ctx.scope("origin", **w):
                X = np.zeros((2, d))
                vec, Xt, _ = G.make_pos(ctx.rng, A, X, D, disttype="q")
                out = vec.represent_as(getattr(v, B), **kwargs_for(B, D))
                judge(ctx, out, B, Xt, 1e-7 * (D or 1e-9), "origin", **w)
                ctx.ev("origin")
        # scalar, and non-default shapes
        for shp in [(), (1,), (2, 3), G.deep(ctx.rng), (0,)] + ([] if ctx.quick() else [(2, 2, 2), (300,)]):
            w = dict(source=A, target=B, regime="shape", shape=shp)
            D = 2.0 if "ProlateSpheroidalPos" in (A, B) else None
            with ctx.scope("shape", **w):
                X = np.abs(G.points(ctx.rng, d, int(np.prod(shp, dtype=int)) or 0, "generic").reshape(shp + (d,)))
                vec, Xt, _ = G.make_pos(ctx.rng, A, X, D, disttype="Distance")
                out = vec.represent_as(getattr(v, B), **kwargs_for(B, D))
                ctx.check(out.shape == shp, "shape:shape", f"shape {out.shape} != {shp}", **w)
                judge(ctx, out, B, Xt, M.tol_point(Xt, D, 3), "shape", **w)
                ctx.ev("scalar" if shp == () else "shaped")
                ctx.distinct(A, B, shp)
    return run


def chain_case(i, d):
    def run(ctx):
        v = G.vecs()
        rng = ctx.rng
        reg = G.pick(rng, ["generic", "octants", "planes", "branch", "integers"])
        X = G.points(rng, d, 10, reg)
        names = [G.pick(rng, FAM[d]) for _ in range(6)]
        if d == 1:
            X = np.abs(X)
        D = float(G.pick(rng, [0.5, 2.0, 10.0]))
        w = dict(chain=names, regime=reg, Delta=D)
        with ctx.scope("chain", **w):
            vec, Xt, info = G.make_pos(rng, names[0], X, D)
            Dm = D
            for h, nm in enumerate(names[1:], 1):
                D2 = float(G.pick(rng, [0.5, 2.0, 10.0]))
                Dm = max(Dm, D2)
                vec = vec.represent_as(getattr(v, nm), **kwargs_for(nm, D2))
                judge(ctx, vec, nm, Xt, M.tol_point(Xt, Dm, hops=3 * h), "chain", step=h, **w)
                ctx.ev("conversion")
            ctx.ev("chain")
            ctx.distinct("chain", *names, reg)
    return run


def jit_case(A, B, d):
    def run(ctx):
        import jax
        v = G.vecs()
        rng = ctx.rng
        X = np.abs(G.points(rng, d, 7, "generic"))
        D = 1.5
        w = dict(source=A, target=B, under="jit")
        with ctx.scope("jit", **w):
            vec, Xt, _ = G.make_pos(rng, A, X, D, disttype="Distance")
            kw = kwargs_for(B, D)
            out = jax.jit(lambda p: p.represent_as(getattr(v, B), **kw))(vec)
            judge(ctx, out, B, Xt, M.tol_point(Xt, D if "Prol" in A + B else None, 3), "jit", **w)
            ctx.ev("jit"); ctx.distinct("jit", A, B)
    return run


def nd_case(ctx):
    v = G.vecs()
    for n in (1, 2, 4, 5):
        for shp in ((), (3,), (2, 2), (2, 1, 3)):
            with ctx.scope("nd", n=n, shape=shp):
                X = ctx.rng.normal(size=shp + (n,))
                vec = v.CartesianPosND.from_(X, "kpc")
                out = vec.represent_as(v.CartesianPosND)
                ctx.check(type(out) is v.CartesianPosND, "nd:type")
                ctx.close(M.val(out.q, "kpc"), X, 0, "nd:point")
                ctx.ev("conversion"); ctx.distinct("nd", n, shp)


def foci_case(ctx):
    """Prolate coordinates at and around the foci, the focal segment and the equatorial plane."""
    v = G.vecs()
    for D in DELTAS:
        z = np.array([D, -D, 0.5 * D, -0.5 * D, 2 * D, -2 * D, D * (1 + 1e-12), D * (1 - 1e-12), 0.0, 0.0, 1e-9 * D, 3.0])
        x = np.array([0, 0, 0, 0, 0, 0, 0, 1e-9 * D, 0.1 * D, 5 * D, 0.3 * D, 0.0])
        X = np.stack([x, 0 * x, z], -1)
        for A in M.POS3:
            if A == "ProlateSpheroidalPos":
                continue
            w = dict(source=A, Delta=D, regime="foci")
            with ctx.scope("foci", **w):
                vec, Xt, _ = G.make_pos(ctx.rng, A, X, D, disttype="q", units="std", az_shift=False)
                out = vec.represent_as(v.ProlateSpheroidalPos, Delta=G.quantity(D, "kpc"))
                judge(ctx, out, "ProlateSpheroidalPos", Xt, 4e-7 * np.maximum(D, np.abs(Xt).max(-1, keepdims=True)) + 0 * Xt, "foci", **w)
                ctx.ev("foci"); ctx.distinct("foci", A, D)
        # Delta in another unit must mean the same
        with ctx.scope("delta-unit", Delta=D):
            X2 = G.points(ctx.rng, 3, 6, "generic")
            cyl, Xt, _ = G.make_pos(ctx.rng, "CylindricalPos", X2)
            out = cyl.represent_as(v.ProlateSpheroidalPos, Delta=G.quantity(D * 1e3, "pc"))
            judge(ctx, out, "ProlateSpheroidalPos", Xt, M.tol_point(Xt, D, 3), "delta-unit", Delta=D)
            ref = M.coords_of("ProlateSpheroidalPos", Xt, D)
            got = M.read_coords(out)
            S2 = np.maximum((Xt**2).sum(-1), D * D)
            for k in ("mu", "nu"):
                ctx.close(got[k], ref[k], 1e-9 * S2, "delta-unit:coords", k)
            ctx.close(M.delta_kpc(out), D, 1e-12 * D, "delta-unit:Delta", "focal length kept")
            # new focal length re-expresses the same point
            D2 = 0.7 * D
            o2 = out.represent_as(v.ProlateSpheroidalPos, Delta=G.quantity(D2, "kpc"))
            judge(ctx, o2, "ProlateSpheroidalPos", Xt, M.tol_point(Xt, D, 6), "delta-change", Delta=(D, D2))
            ctx.close(M.delta_kpc(o2), D2, 1e-12 * D, "delta-change:Delta", "requested focal length stored")


def coords_case(A, B, d):
    """The target coordinates themselves (mod 2pi in azimuth) equal the reference coordinates."""
    def run(ctx):
        v = G.vecs()
        X = G.points(ctx.rng, d, 16, "octants")
        if d == 1:
            X = np.abs(X)
        D = 1.3
        w = dict(source=A, target=B)
        with ctx.scope("coords", **w):
            vec, Xt, _ = G.make_pos(ctx.rng, A, X, D)
            out = vec.represent_as(getattr(v, B), **kwargs_for(B, D))
            got, ref = M.read_coords(out), M.coords_of(B, Xt, D)
            for k, kind in M.REPS[B][1]:
                dv = got[k] - ref[k]
                scale = np.sqrt((Xt**2).sum(-1))
                if kind == M.ANG:
                    if k == M.AZIMUTH.get(B):
                        dv = (dv + np.pi) % (2 * np.pi) - np.pi
                    ctx.close(dv, 0 * dv, 1e-9, f"coords:{k}", f"{B}.{k}", **w)
                else:
                    sc = scale if kind == M.LEN else np.maximum(scale, D) ** 2
                    ctx.close(dv, 0 * dv, 1e-9 * sc, f"coords:{k}", f"{B}.{k}", **w)
            ctx.ev("coords"); ctx.distinct("coords", A, B)
    return run


def cases(tier):
    out = []
    nrep = 1 if tier == "quick" else 12
    for d, fam in FAM.items():
        for A, B in itertools.product(fam, fam):
            out.append((f"pair:{A}->{B}", pair_case(A, B, d, nrep)))
            out.append((f"coords:{A}->{B}", coords_case(A, B, d)))
    for i in range(24 if tier == "quick" else 600):
        out.append((f"chain:{i}", chain_case(i, 3 if i % 4 else (2 if i % 8 else 1))))
    jp = [(A, B) for A, B in itertools.product(M.POS3, M.POS3) if A != B]
    for i, (A, B) in enumerate(jp):
        if tier != "quick" or i % 3 == 0:
            out.append((f"jit:{A}->{B}", jit_case(A, B, 3)))
    out.append(("nd", nd_case)); out.append(("foci", foci_case))
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

"""C03: velocity conversion is the pushforward of the position conversion."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
from mon import model as M, gen as G, runtime as R

PROP = "C03"
RULE = ("a case converts a batch of velocities from one velocity class to another at base positions given in several "
        "representations, units and component types (also as a Quantity); oracle: rates solved from the complex-step "
        "Jacobian of the defining coordinate formulae at the independently computed point, compared as the Cartesian "
        "velocity they denote and against finite differences of the library's own position conversion along a "
        "trajectory; distinct = (source class, target class, base class, regime, units)")
ASSUMPTIONS = ["points away from coordinate singularities (the Jacobian does not exist there)",
               "velocity and base position have the same batch shape (the documented call form)"]
REQUIRED = {"conversion": 150, "trajectory": 20, "roundtrip": 80, "base-quantity": 20, "coslat": 20}

V3 = [M.velname(p) for p in M.POS3] + ["LonCosLatSphericalVel"]
V2 = [M.velname(p) for p in M.POS2]
V1 = [M.velname(p) for p in M.POS1]
FAM = {1: V1, 2: V2, 3: V3}
POSF = {1: M.POS1, 2: M.POS2, 3: M.POS3}


def make_vel(ctx, name, Xt, V, D, units="mixed"):
    """Velocity object of class ``name`` denoting (about) V at Xt; returns object, exact Cartesian velocity."""
    pn = M.posname(name)
    c = M.coords_of(pn, Xt, D)
    rates = M.coord_vel(pn, c, V, D)
    cl = np.cos(c["lat"]) if name == "LonCosLatSphericalVel" else None
    obj, back = G.make_diff(ctx.rng, pn, 1, rates, units=units, coslat=cl)
    return obj, M.cart_vel(pn, c, back, D)


def kw_for(D, *names):
    return {"Delta": G.quantity(D, "kpc")} if any("Prolate" in n for n in names) else {}


def tolv(V, A, B, S=None):
    t = 1e-9 if not ("Prolate" in A + B) else 1e-7
    return t * np.sqrt((V**2).sum(-1))[..., None] + 0 * V


def judge(ctx, out, B, Xt, V, D, tol, mech, **w):
    ctx.check(type(out).__name__ == B, mech + ":type", f"returned {type(out).__name__}, asked for {B}", **w)
    ctx.check(out.shape == Xt.shape[:-1], mech + ":shape", f"shape {out.shape} != {Xt.shape[:-1]}", **w)
    ctx.close(M.vel_cart(out, Xt, D), V, tol, mech + ":velocity", f"{w}", **w)


def pts(ctx, d, n, reg, D=None):
    if reg in ("generic", "octants"):
        X = G.points(ctx.rng, d, n, "generic")
        if reg == "octants":
            k = np.arange(n)
            X = np.abs(X) * np.stack([np.where((k >> i) & 1, -1.0, 1.0) for i in range(d)], -1)
    else:
        X = G.points(ctx.rng, d, n, "generic", scale=1.0) * {"tiny": 1e-8, "huge": 1e6}[reg]
    if d == 1:
        X = np.abs(X)
    return X


def pair_case(A, B, d, regs, nbase):
    def run(ctx):
        v = G.vecs()
        for ri, reg in enumerate(regs if not ctx.quick() else ["octants", G.pick(ctx.rng, ["tiny", "huge", "generic"])]):
            bases = [G.pick(ctx.rng, POSF[d]) for _ in range(nbase)] + ["Quantity"]
            if ctx.quick():
                bases = [bases[ri]]
            for base in bases:
                n = 8
                X = pts(ctx, d, n, reg)
                prol = "Prolate" in A + B + base
                S = float(np.sqrt((X**2).sum(-1)).mean())
                D = float(G.pick(ctx.rng, [0.5, 1.0, 2.0])) * S if prol else None
                w = dict(source=A, target=B, base=base, regime=reg, Delta=D)
                with ctx.scope("convert", **w):
                    if base == "Quantity":
                        un = G.pick(ctx.rng, G.LENU)
                        raw = X * M.factor("kpc", un)
                        pos, Xt = G.quantity(raw, un), raw * M.factor(un, "kpc")
                        ctx.ev("base-quantity")
                        info = {"units": {"q": un}}
                    else:
                        pos, Xt, info = G.make_pos(ctx.rng, base, X, D)
                    V0 = ctx.rng.normal(size=X.shape) * np.sqrt((X**2).sum(-1, keepdims=True)) * 10.0 ** ctx.rng.uniform(-3, 1)
                    vel, V = make_vel(ctx, A, Xt, V0, D)
                    kw = kw_for(D, A, B)
                    out = vel.represent_as(getattr(v, B), pos, **kw)
                    # conditioning: a point carried by Parallax etc. loses a few digits
                    judge(ctx, out, B, Xt, V, D, tolv(V, A + base, B), "convert", **w)
                    ctx.ev("conversion"); ctx.ev("velocities", n)
                    if "CosLat" in A + B:
                        ctx.ev("coslat")
                    ctx.distinct(A, B, base, reg, sorted((k, str(x)) for k, x in info["units"].items()))
                    ctx.sample(source=A, target=B, base=base, regime=reg, X=Xt[0], V=V[0])
                    back = out.represent_as(getattr(v, A), pos, **kw)
                    judge(ctx, back, A, Xt, V, D, 3 * tolv(V, A + base, B), "roundtrip", **w)
                    # component-wise recovery of the original object
                    pn = M.posname(A)
                    for k, _ in M.REPS[pn][1]:
                        f = "d_lon_coslat" if (k == "lon" and "CosLat" in A) else "d_" + k
                        a0, a1 = getattr(vel, f), getattr(back, f)
                        ctx.check(u_dim(a0) == u_dim(a1), "roundtrip:dim", f"{f}: {a0.unit} vs {a1.unit}", **w)
                    ctx.ev("roundtrip")
        # batch shapes
        for shp in [(), (2, 3), (2, 2, 2), (2, 1, 3), (1,), (70,)] if not ctx.quick() else [G.pick(ctx.rng, [(), (2, 3), (2, 2, 2), (2, 1, 3), (1,)])]:
            D = 1.5 if "Prolate" in A + B else None
            w = dict(source=A, target=B, shape=shp)
            with ctx.scope("shape", **w):
                X = pts(ctx, d, max(1, int(np.prod(shp, dtype=int))), "octants").reshape(shp + (d,))
                if D is not None:
                    D = D * float(np.sqrt((X**2).sum(-1)).mean())
                base = G.pick(ctx.rng, POSF[d])
                if "Prolate" in base and D is None:
                    base = M.CARTESIAN[d]
                pos, Xt, _ = G.make_pos(ctx.rng, base, X, D, disttype="Distance")
                vel, V = make_vel(ctx, A, Xt, ctx.rng.normal(size=X.shape), D)
                out = vel.represent_as(getattr(v, B), pos, **kw_for(D, A, B))
                judge(ctx, out, B, Xt, V, D, tolv(V, A + base, B), "shape", **w)
                ctx.ev("conversion"); ctx.distinct(A, B, shp)
    return run


def u_dim(q):
    import unxt

    return unxt.dimension_of(q)


def linear_case(A, B, d):
    """Linearity in the velocity and independence of base representation."""
    def run(ctx):
        v = G.vecs()
        X = pts(ctx, d, 6, "octants")
        S = float(np.sqrt((X**2).sum(-1)).mean())
        D = 1.2 * S if "Prolate" in A + B else None
        w = dict(source=A, target=B)
        with ctx.scope("linear", **w):
            pos, Xt, _ = G.make_pos(ctx.rng, M.CARTESIAN[d], X, D, units="std")
            outs = []
            for c in (1.0, -2.5, 0.0):
                V0 = np.ones(X.shape) * np.arange(1, d + 1) * 0.1
                vel, V = make_vel(ctx, A, Xt, c * V0, D, units="std")
                o = vel.represent_as(getattr(v, B), pos, **kw_for(D, A, B))
                outs.append(M.vel_cart(o, Xt, D))
                ctx.close(outs[-1], V, tolv(0.3 * V0, A, B), "linear:velocity", f"scale {c}", **w)
                ctx.ev("conversion")
            ctx.distinct("linear", A, B)
    return run


def trajectory_case(A, B, d, i):
    """d/dt of the library's own position conversion along a straight line in source coordinates."""
    def run(ctx):
        v = G.vecs()
        pa, pb = M.posname(A), M.posname(B)
        X = pts(ctx, d, 5, "octants")
        w = dict(source=A, target=B)
        with ctx.scope("trajectory", **w):
            _, Xt, _ = G.make_pos(ctx.rng, M.CARTESIAN[d], X, units="std")
            c = M.coords_of(pa, Xt)
            V0 = ctx.rng.normal(size=X.shape) * np.sqrt((X**2).sum(-1, keepdims=True)) * 0.1
            rates = M.coord_vel(pa, c, V0)
            h = 1e-3
            fs = []

            def at(s):
                kw = {k: G.quantity(c[k] + s * rates[k], M.STD[kind]) for k, kind in M.REPS[pa][1]}
                p = getattr(v, pa)(**kw)
                return p, M.read_coords(p.represent_as(getattr(v, pb)))

            pos, _ = at(0.0)
            lo2, lo, hi, hi2 = [at(k * h)[1] for k in (-2, -1, 1, 2)]
            coslat = np.cos(c["lat"]) if A == "LonCosLatSphericalVel" else None
            vel, _ = G.make_diff(ctx.rng, pa, 1, rates, units="std", coslat=coslat)
            out = vel.represent_as(getattr(v, B), pos)
            cb = M.coords_of(pb, Xt)
            got = M.read_rates(out, 1, np.cos(cb["lat"]) if B == "LonCosLatSphericalVel" else None)
            for k, kind in M.REPS[pb][1]:
                wr = (lambda x: (x + np.pi) % (2 * np.pi) - np.pi) if kind == M.ANG else (lambda x: x)
                fd = (8 * wr(hi[k] - lo[k]) - wr(hi2[k] - lo2[k])) / (12 * h)
                sc = np.abs(fd) + (0.1 if kind == M.ANG else 0.1 * np.sqrt((Xt**2).sum(-1)))
                ctx.close(got[k], fd, 1e-7 * sc, f"trajectory:{k}", f"{B}.{k} rate is not the time derivative", **w)
            ctx.ev("trajectory"); ctx.distinct("traj", A, B)
    return run


def nd_case(ctx):
    v = G.vecs()
    for n in (1, 3, 5):
        for shp in ((), (4,), (2, 3), (2, 2, 2)):
            with ctx.scope("nd", n=n, shape=shp):
                q = v.CartesianPosND.from_(ctx.rng.normal(size=shp + (n,)), "kpc")
                dv = ctx.rng.normal(size=shp + (n,))
                p = v.CartesianVelND.from_(dv, "km/s")
                for o in (p.represent_as(v.CartesianVelND, q), p.represent_as(v.CartesianVelND)):
                    ctx.check(type(o) is v.CartesianVelND, "nd:type")
                    ctx.close(M.val(o.d_q, "km/s"), dv, 0, "nd:velocity")
                ctx.ev("conversion"); ctx.distinct("nd", n, shp)


def nopos_case(ctx):
    """Cartesian self-conversions need no position and change nothing."""
    v = G.vecs()
    for d in (1, 2, 3):
        cn = M.velname(M.CARTESIAN[d])
        with ctx.scope("nopos", cls=cn):
            X = pts(ctx, d, 5, "octants")
            vel, V = make_vel(ctx, cn, X, ctx.rng.normal(size=X.shape), None)
            o = vel.represent_as(getattr(v, cn))
            judge(ctx, o, cn, X, V, None, 1e-13 * np.abs(V).max() + 0 * V, "nopos", cls=cn)
            ctx.ev("conversion")


def cases(tier):
    out = []
    q = tier == "quick"
    regs = ["octants", "tiny", "huge"] if q else ["octants", "generic", "tiny", "huge"] * 8
    nb = 1 if q else 3
    for d in (1, 2, 3):
        for A, B in itertools.product(FAM[d], FAM[d]):
            if d == 1:
                r = regs
            else:
                r = regs
            out.append((f"pair:{A}->{B}", pair_case(A, B, d, r, nb)))
            if not q or (len(out) % 3 == 0):
                out.append((f"linear:{A}->{B}", linear_case(A, B, d)))
            if "Prolate" not in A + B:
                out.append((f"trajectory:{A}->{B}", trajectory_case(A, B, d, 0)))
    out += [("nd", nd_case), ("nopos", nopos_case)]
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

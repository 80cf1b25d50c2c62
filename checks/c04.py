"""C04: acceleration conversion transforms the second derivative of a trajectory."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
from mon import model as M, gen as G, runtime as R

PROP = "C04"
RULE = ("a case converts a batch of accelerations between two classes with base position and velocity in random "
        "representations and units (also Quantities); oracle: the Cartesian acceleration denoted by the result, "
        "J q'' + q'^T H q', from the complex-step model; a result that is exactly the Jacobian part alone is the "
        "listed known finding, everything else must be right; distinct = (source, target, base classes, regime, units)")
ASSUMPTIONS = ["points away from coordinate singularities", "acceleration, velocity and position share the batch shape"]
REQUIRED = {"conversion": 60, "roundtrip": 30, "base-quantity": 2, "independent": 10, "linear": 10}
OMIT = "convert:velocity-term-omitted"

FAM = {1: M.POS1, 2: M.POS2, 3: M.POS3}


def kw_for(D, *names):
    return {"Delta": G.quantity(D, "kpc")} if any("Prolate" in n for n in names) else {}


def pts(ctx, d, n):
    X = np.abs(G.points(ctx.rng, d, n, "generic", scale=10.0 ** ctx.rng.uniform(-1, 1)))
    k = np.arange(n)
    X = X * np.stack([np.where((k >> i) & 1, -1.0, 1.0) for i in range(d)], -1)
    return np.abs(X) if d == 1 else X


def setup_state(ctx, A, d, n, D, base, vbase, shp=None):
    """position object, velocity object, acceleration object of family A; exact Cartesian X, V, and rates."""
    X = pts(ctx, d, n)
    if shp is not None:
        X = X.reshape(shp + (d,))
    S = np.sqrt((X**2).sum(-1, keepdims=True))
    if base == "Quantity":
        un = G.pick(ctx.rng, G.LENU)
        raw = X * M.factor("kpc", un)
        pos, Xt = G.quantity(raw, un), raw * M.factor(un, "kpc")
        ctx.ev("base-quantity")
    else:
        pos, Xt, _ = G.make_pos(ctx.rng, base, X, D, disttype="auto")
    V0 = ctx.rng.normal(size=X.shape) * S * 0.3
    if vbase == "Quantity":
        un = G.pick(ctx.rng, G.SPDU)
        raw = V0 * M.factor("kpc/Myr", un)
        vel, V = G.quantity(raw, un), raw * M.factor(un, "kpc/Myr")
    else:
        c = M.coords_of(vbase, Xt, D)
        vel, back = G.make_diff(ctx.rng, vbase, 1, M.coord_vel(vbase, c, V0, D))
        V = M.cart_vel(vbase, c, back, D)
    cA = M.coords_of(A, Xt, D)
    a0 = M.coord_vel(A, cA, ctx.rng.normal(size=X.shape) * S * 0.1, D)
    acc, aback = G.make_diff(ctx.rng, A, 2, a0)
    return pos, vel, acc, Xt, V, aback


def cart_acc(name, rates2, V, Xt, D, jac_only):
    c = M.coords_of(name, Xt, D)
    a = M.cart_vel(name, c, rates2, D)
    return a if jac_only else a + M.quad_term(name, c, M.coord_vel(name, c, V, D), D)


def judge(ctx, out, A, B, aback, Xt, V, D, **w):
    """Compare the result with the true second derivative."""
    nm = M.accname(B)
    ctx.check(type(out).__name__ == nm, "convert:type", f"returned {type(out).__name__}, asked for {nm}", **w)
    ctx.check(out.shape == Xt.shape[:-1], "convert:shape", f"shape {out.shape} != {Xt.shape[:-1]}", **w)
    rt = M.read_rates(out, 2)
    jA, jB = cart_acc(A, aback, V, Xt, D, True), cart_acc(B, rt, V, Xt, D, True)
    tA, tB = cart_acc(A, aback, V, Xt, D, False), cart_acc(B, rt, V, Xt, D, False)
    quad = np.abs(tA - jA).max() + np.abs(tB - jB).max()
    scale = np.sqrt((tA**2).sum(-1)).max() + np.sqrt((jA**2).sum(-1)).max() + quad
    tol = (1e-6 if "Prolate" in A + B else 1e-8) * scale
    ctx.evals += Xt.size
    if tA.shape == tB.shape and np.all(np.abs(tB - tA) <= tol):
        ctx.ev("exact")
        return True
    if jA.shape == jB.shape and np.all(np.abs(jB - jA) <= tol):
        ctx.ev("jacobian-only")
        ctx.violation(OMIT, "result is the Jacobian times the acceleration; the velocity-dependent term is missing",
                      got=tB, want=tA, **w)
        return True
    return ctx.close(tB, tA, tol, "convert:acceleration", f"{w}", jac_got=jB, jac_want=jA)


def pair_case(A, B, d, nrep):
    def run(ctx):
        v = G.vecs()
        for rep in range(nrep):
            base = G.pick(ctx.rng, FAM[d] + ["Quantity"])
            vbase = G.pick(ctx.rng, FAM[d] + ["Quantity"])
            if d == 3 and ctx.rng.random() < 0.2 and "Prolate" not in A + B:
                base = vbase = "ProlateSpheroidalPos"
            prol = "Prolate" in A + B + base + vbase
            D = float(G.pick(ctx.rng, [0.5, 1.0, 2.0])) if prol else None
            w = dict(source=A, target=B, base=base, vbase=vbase, Delta=D)
            with ctx.scope("convert", **w):
                pos, vel, acc, Xt, V, ab = setup_state(ctx, A, d, 8, D, base, vbase)
                # a prolate base position already says which focal length is meant: nothing need be passed then
                kw = {} if "Prolate" in base and "Prolate" not in A + B else kw_for(D, A, B, vbase)
                out = acc.represent_as(getattr(v, M.accname(B)), vel, pos, **kw)
                judge(ctx, out, A, B, ab, Xt, V, D, **w)
                ctx.ev("conversion"); ctx.distinct(A, B, base, vbase)
                ctx.sample(source=A, target=B, base=base, vbase=vbase, X=Xt[0], V=V[0])
                back = out.represent_as(getattr(v, M.accname(A)), vel, pos, **kw_for(D, A, B, vbase))
                # a round trip recovers the original acceleration, term or no term
                r0, r1 = cart_acc(A, ab, V, Xt, D, True), cart_acc(A, M.read_rates(back, 2), V, Xt, D, True)
                ctx.close(r1, r0, (1e-6 if prol else 1e-8) * (np.abs(r0).max() + np.abs(V).max() ** 2), "roundtrip:acceleration", f"{w}")
                ctx.ev("roundtrip")
        shp = G.pick(ctx.rng, [(), (2, 3), (2, 2, 2), (2, 1, 3), (1,)])
        D = 1.5 if "Prolate" in A + B else None
        w = dict(source=A, target=B, shape=shp)
        with ctx.scope("shape", **w):
            base = M.CARTESIAN[d]
            pos, vel, acc, Xt, V, ab = setup_state(ctx, A, d, max(1, int(np.prod(shp, dtype=int))), D, base, base, shp)
            out = acc.represent_as(getattr(v, M.accname(B)), vel, pos, **kw_for(D, A, B))
            judge(ctx, out, A, B, ab, Xt, V, D, **w)
            ctx.ev("conversion"); ctx.distinct(A, B, shp)
    return run


def linear_case(A, B, d):
    """Additive and homogeneous in the acceleration; at rest the conversion is exactly the Jacobian;
    independent of the representation of the base position and velocity."""
    def run(ctx):
        v = G.vecs()
        D = 1.5 if "Prolate" in A + B else None
        w = dict(source=A, target=B)
        T = getattr(v, M.accname(B))
        with ctx.scope("linear", **w):
            X = pts(ctx, d, 6)
            S = np.sqrt((X**2).sum(-1, keepdims=True))
            c = M.coords_of(A, X, D)
            pos, Xt, _ = G.make_pos(ctx.rng, M.CARTESIAN[d], X, D)
            zero = {k: 0 * c[k] for k in c}
            rest, _ = G.make_diff(ctx.rng, A, 1, zero)
            V0 = ctx.rng.normal(size=X.shape) * S * 0.3
            moving, mb = G.make_diff(ctx.rng, A, 1, M.coord_vel(A, c, V0, D))
            a1, b1 = G.make_diff(ctx.rng, A, 2, M.coord_vel(A, c, ctx.rng.normal(size=X.shape) * S, D))
            a2, b2 = G.make_diff(ctx.rng, A, 2, M.coord_vel(A, c, ctx.rng.normal(size=X.shape) * S, D))
            mix, bm = G.make_diff(ctx.rng, A, 2, {k: 2.0 * b1[k] - 0.5 * b2[k] for k in b1})
            z, _ = G.make_diff(ctx.rng, A, 2, zero)
            kw = kw_for(D, A, B)
            for vel in (rest, moving):
                o1, o2, om, oz = [M.read_rates(x.represent_as(T, vel, pos, **kw), 2) for x in (a1, a2, mix, z)]
                tolf = 1e-6 if D else 1e-9
                cB = M.coords_of(B, Xt, D)
                lin = M.cart_vel(B, cB, {k: om[k] - oz[k] - 2.0 * (o1[k] - oz[k]) + 0.5 * (o2[k] - oz[k]) for k in om}, D)
                jac = M.cart_vel(B, cB, {k: o1[k] - oz[k] for k in om}, D)
                want = M.cart_vel(A, M.coords_of(A, Xt, D), b1, D)
                ctx.close(lin, 0 * lin, tolf * (S + np.abs(V0).max() ** 2 / S) * 10, "linear:linear", f"{w}")
                ctx.close(jac, want, tolf * (S + np.abs(V0).max() ** 2 / S) * 10, "linear:jacobian", f"{w}")
                if vel is rest:
                    ctx.close(M.cart_vel(B, cB, oz, D), 0 * want, tolf * S, "linear:rest", "acceleration of a point at rest")
                ctx.ev("linear")
            # independence of base representations
            outs = []
            for base in FAM[d]:
                Db = D or 1.5
                p2 = pos.represent_as(getattr(v, base), **({"Delta": G.quantity(Db, "kpc")} if "Prolate" in base else {}))
                v2n = G.pick(ctx.rng, [x for x in FAM[d] if "Prolate" not in x or "Prolate" in base])
                v2 = moving.represent_as(getattr(v, M.velname(v2n)), p2, **kw_for(D or 1.5, A, v2n))
                o = M.read_rates(a1.represent_as(T, v2, p2, **({} if "Prolate" in base and "Prolate" not in A + B else kw)), 2)
                outs.append(M.cart_vel(B, M.coords_of(B, Xt, D), o, D))
                ctx.ev("independent"); ctx.distinct("indep", A, B, base, v2n)
            for o in outs[1:]:
                ctx.close(o, outs[0], (1e-6 if D or d == 3 else 1e-9) * (S + np.abs(V0).max() ** 2 / S), "independent:base", f"{w}")
    return run


def trivial_case(ctx):
    v = G.vecs()
    for d in (1, 2, 3):
        cn = M.accname(M.CARTESIAN[d])
        with ctx.scope("nopos", cls=cn):
            a, b = G.make_diff(ctx.rng, M.CARTESIAN[d], 2, {k: ctx.rng.normal(size=5) for k in "xyz"[:d]})
            o = a.represent_as(getattr(v, cn))
            r = M.read_rates(o, 2)
            for k in r:
                ctx.close(r[k], b[k], 1e-13 * np.abs(b[k]).max(), "nopos:value", k)
            ctx.ev("conversion")
    with ctx.scope("nd"):
        a = v.CartesianAccND.from_(ctx.rng.normal(size=(4, 5)), "km/s2")
        o = a.represent_as(v.CartesianAccND)
        ctx.close(M.val(o.d2_q, "km/s2"), np.asarray(a.d2_q.value), 0, "nd:value")
        ctx.ev("conversion")


def cases(tier):
    out = []
    q = tier == "quick"
    i = 0
    for d in (1, 2, 3):
        for A, B in itertools.product(FAM[d], FAM[d]):
            out.append((f"pair:{A}->{B}", pair_case(A, B, d, 1 if q else 12)))
            i += 1
            if not q or i % 5 == 0:
                out.append((f"linear:{A}->{B}", linear_case(A, B, d)))
    out.append(("trivial", trivial_case))
    out.sort(key=lambda c: not c[0].startswith("linear"))  # the long ones first
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

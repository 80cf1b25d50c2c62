"""C06: adding, subtracting and negating positions is Euclidean in any representation."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
from mon import model as M, gen as G, runtime as R

PROP = "C06"
RULE = ("a case applies +, -, unary -, unary + to positions of every ordered pair of same-dimension representations "
        "(regimes, mixed units, Parallax/DistanceModulus components, scalar/batch/broadcast shapes, cancellation) and "
        "compares the denoted point with the Euclidean result of the independently computed points; distinct = "
        "(operation, left, right, regime, shapes)")
ASSUMPTIONS = ["operations the library does not register (e.g. subtracting 1D velocities) raise and are not claimed",
               "batch shapes are equal, scalar, or equal rank with size-1 axes"]
REQUIRED = {"add": 100, "sub": 100, "neg": 20, "pos": 20, "law": 40, "differential": 60, "broadcast": 50, "cancel": 30}
FAM = {1: M.POS1, 2: M.POS2, 3: M.POS3}


def tol(W, S, prol):
    """W: result point; S: operand scale (..., 1)."""
    R_ = np.hypot(W[..., 0], W[..., 1])[..., None] if W.shape[-1] == 3 else None
    t = 4e-12 * S
    if prol:
        t = t + 2e-7 * S
    return t + 0 * W


def judge(ctx, out, A, want, S, prol, mech, **w):
    ctx.check(type(out).__name__ == A, mech + ":type", f"result is {type(out).__name__}, left operand {A}", **w)
    if type(out).__name__ not in M.REPS:
        return
    got = M.cart(out)
    ctx.close(got, want, tol(want, S, prol), mech + ":point", f"{w}")


def scale(D, *Xs):
    s = np.max(np.stack(np.broadcast_arrays(*[np.sqrt((x**2).sum(-1, keepdims=True)) for x in Xs])), 0)
    return np.maximum(s, D) if D else s


def pair_case(A, B, d, regs):
    def run(ctx):
        n = 10
        for ra, rb in regs:
            X, Y = G.points(ctx.rng, d, n, ra), G.points(ctx.rng, d, n, rb)
            if ra == "integers" and rb == "integers":
                Y[::2] = -X[::2]
            if d == 1:
                X, Y = np.abs(X), np.abs(Y)
                if A == "CartesianPos1D":
                    X = X * np.where(np.arange(n) % 2, -1, 1)[:, None]
                if B == "CartesianPos1D" and A == "CartesianPos1D":
                    Y = Y * np.where(np.arange(n) % 3, -1, 1)[:, None]
            prol = "Prolate" in A + B
            D = float(ctx.rng.uniform(0.3, 2)) * max(float(np.abs(X).max()), 1e-6) if prol else None
            w = dict(left=A, right=B, regimes=(ra, rb))
            with ctx.scope("binary", **w):
                a, Xt, ia = G.make_pos(ctx.rng, A, X, D)
                b, Yt, ib = G.make_pos(ctx.rng, B, Y, D)
                S = scale(D, Xt, Yt)
                judge(ctx, a + b, A, Xt + Yt, S, prol, "add", **w)
                ctx.ev("add")
                if A == "RadialPos":
                    big, Zt, _ = G.make_pos(ctx.rng, A, X + 1.01 * Y + 1e-3 * (np.abs(X).max() + np.abs(Y).max()), D)
                    judge(ctx, big - b, A, Zt - Yt, scale(D, Zt, Yt), prol, "sub", **w)
                else:
                    judge(ctx, a - b, A, Xt - Yt, S, prol, "sub", **w)
                ctx.ev("sub")
                ctx.distinct("pair", A, B, ra, rb)
                ctx.sample(left=A, right=B, a=Xt[0], b=Yt[0], units=(ia["units"], ib["units"]))
                # commutativity, geometrically
                if A != "RadialPos" and B != "RadialPos" or d == 1 and (Xt + Yt >= 0).all():
                    ctx.close(M.cart(b + a), M.cart(a + b), 2 * tol(Xt, S, prol), "law:commutative", f"{w}")
                    ctx.ev("law")
        # shapes
        for sa, sb in [((), (4,)), ((4,), ()), ((3, 1), (1, 2)), ((2, 2), (2, 2)), ((2, 1, 3), (2, 2, 3)), ((), ())]:
            w = dict(left=A, right=B, shapes=(sa, sb))
            with ctx.scope("broadcast", **w):
                na, nb = max(1, int(np.prod(sa, dtype=int))), max(1, int(np.prod(sb, dtype=int)))
                X = np.abs(G.points(ctx.rng, d, na, "octants")).reshape(sa + (d,))
                Y = np.abs(G.points(ctx.rng, d, nb, "octants")).reshape(sb + (d,))
                D = 1.0 if "Prolate" in A + B else None
                a, Xt, _ = G.make_pos(ctx.rng, A, X, D, disttype="Distance")
                b, Yt, _ = G.make_pos(ctx.rng, B, Y, D, disttype="Distance")
                o = a + b
                want = Xt + Yt
                ctx.check(o.shape == want.shape[:-1], "broadcast:shape", f"{o.shape} != {want.shape[:-1]}", **w)
                judge(ctx, o, A, want, scale(D, Xt, Yt) + 0 * want[..., :1], bool(D), "broadcast", **w)
                ctx.ev("broadcast"); ctx.distinct("shape", A, B, sa, sb)
    return run


def unary_case(A, d, regs):
    def run(ctx):
        for reg in regs:
            X = G.points(ctx.rng, d, 12, reg)
            if d == 1:
                X = np.abs(X)
            D = float(ctx.rng.uniform(0.3, 2)) * max(float(np.abs(X).max()), 1e-6) if "Prol" in A else None
            w = dict(cls=A, regime=reg)
            with ctx.scope("unary", **w):
                a, Xt, _ = G.make_pos(ctx.rng, A, X, D)
                S = scale(D, Xt)
                p = +a
                judge(ctx, p, A, Xt, S, bool(D), "pos", **w)
                for k in a.components:
                    ctx.check(getattr(p, k).unit == getattr(a, k).unit and np.array_equal(np.asarray(getattr(p, k).value), np.asarray(getattr(a, k).value)),
                              "pos:copy", k, **w)
                ctx.ev("pos")
                if A != "RadialPos":
                    judge(ctx, -a, A, -Xt, S, bool(D), "neg", **w)
                    judge(ctx, -(-a), A, Xt, 2 * S, bool(D), "neg", **w)
                    ctx.ev("neg")
                    z = a - a
                    judge(ctx, z, A, 0 * Xt, S, bool(D), "cancel", **w)
                    judge(ctx, a + (-a), A, 0 * Xt, S, bool(D), "cancel", **w)
                    ctx.ev("cancel")
                ctx.distinct("unary", A, reg)
    return run


def assoc_case(i, d):
    def run(ctx):
        names = [G.pick(ctx.rng, [x for x in FAM[d] if x != "RadialPos"]) for _ in range(3)]
        Xs = [G.points(ctx.rng, d, 8, G.pick(ctx.rng, ["octants", "planes", "integers"])) for _ in range(3)]
        D = 1.1 if any("Prol" in n for n in names) else None
        w = dict(names=names)
        with ctx.scope("law", **w):
            vs, Ts = zip(*[G.make_pos(ctx.rng, n, X, D)[:2] for n, X in zip(names, Xs)])
            a, b, c = vs
            S = scale(D, *Ts)
            want = Ts[0] + Ts[1] + Ts[2]
            for mech, o, wt in (("law:assoc-left", (a + b) + c, want), ("law:assoc-right", a + (b + c), want),
                                ("law:sub-as-add-neg", a + (-b), Ts[0] - Ts[1]), ("law:neg-sub", -(b - a), Ts[0] - Ts[1])):
                ctx.close(M.cart(o), wt, 6 * tol(wt, S, bool(D)), mech, f"{w}")
                ctx.ev("law")
            ctx.distinct("assoc", *names)
    return run


DIFF = {"CartesianVel1D": (1, "+"), "CartesianVel2D": (1, "+"), "CartesianVel3D": (1, "+-"), "CartesianAcc1D": (2, "+-"),
        "CartesianAcc2D": (2, "+"), "CartesianAcc3D": (2, "+-")}


def diff_case(name):
    def run(ctx):
        order, ops = DIFF[name]
        pn = M.posname(name)
        comps = [k for k, _ in M.REPS[pn][1]]
        for shp_a, shp_b in [((5,), (5,)), ((), ()), ((2, 3), (2, 3)), ((2, 2, 3), (2, 2, 3)), ((), (4,)), ((4,), ())]:
            for _ in range(3 if ctx.quick() else 20):
                w = dict(cls=name, shapes=(shp_a, shp_b))
                with ctx.scope("differential", **w):
                    a, ra = G.make_diff(ctx.rng, pn, order, {k: ctx.rng.normal(size=shp_a) for k in comps})
                    b, rb = G.make_diff(ctx.rng, pn, order, {k: ctx.rng.normal(size=shp_b) for k in comps})
                    outs = [("add", a + b, {k: ra[k] + rb[k] for k in comps}), ("neg", -a, {k: -ra[k] for k in comps}),
                            ("pos", +a, ra)]
                    if "-" in ops:
                        outs.append(("sub", a - b, {k: ra[k] - rb[k] for k in comps}))
                    for mech, o, want in outs:
                        ctx.check(type(o).__name__ == name, f"differential:{mech}:type", type(o).__name__, **w)
                        r = M.read_rates(o, order)
                        for k in comps:
                            ctx.close(r[k], want[k], 1e-13 * (np.abs(ra[k]).max() + np.abs(rb[k]).max()), f"differential:{mech}", k, **w)
                        ctx.ev("differential")
                    ctx.distinct("diff", name, shp_a, shp_b)
    return run


def negdiff_case(name, order):
    """Unary minus of a non-Cartesian velocity/acceleration negates every component."""
    def run(ctx):
        comps = [k for k, _ in M.REPS[name][1]]
        with ctx.scope("differential-neg", cls=name, order=order):
            a, ra = G.make_diff(ctx.rng, name, order, {k: ctx.rng.normal(size=6) for k in comps})
            r = M.read_rates(-a, order)
            for k in comps:
                ctx.close(r[k], -ra[k], 1e-13 * np.abs(ra[k]).max(), "differential:neg", f"{name} {k}")
            r = M.read_rates(+a, order)
            for k in comps:
                ctx.close(r[k], ra[k], 1e-13 * np.abs(ra[k]).max(), "differential:pos", f"{name} {k}")
            ctx.ev("differential"); ctx.distinct("negdiff", name, order)
    return run


def nd_case(ctx):
    v = G.vecs()
    for n in (1, 2, 4):
        for shp in ((), (3,), (2, 2), (2, 1, 3)):
            with ctx.scope("nd", n=n, shape=shp):
                x, y = ctx.rng.normal(size=shp + (n,)), ctx.rng.normal(size=shp + (n,))
                a, b = v.CartesianPosND.from_(x, "kpc"), v.CartesianPosND.from_(y * 1e3, "pc")
                for mech, o, want in (("add", a + b, x + y), ("sub", a - b, x - y), ("neg", -a, -x), ("pos", +a, x)):
                    ctx.close(M.val(o.q, "kpc"), want, 1e-14 * 10, f"nd:{mech}", f"n={n}")
                    ctx.ev("add" if mech == "add" else mech)
                ctx.distinct("nd", n, shp)


def cases(tier):
    q = tier == "quick"
    out = []
    regs = [("octants", "octants"), ("integers", "integers"), ("axes", "branch")] if q else \
        list(itertools.product(["octants", "axes", "planes", "branch", "integers", "nearaxis"], repeat=2))
    for d in (3, 2, 1):
        for A, B in itertools.product(FAM[d], FAM[d]):
            out.append((f"pair:{A}+{B}", pair_case(A, B, d, regs)))
    for d in (1, 2, 3):
        for A in FAM[d]:
            out.append((f"unary:{A}", unary_case(A, d, ["octants", "axes", "planes", "integers"] if q else G.REGIMES * 4)))
            for o in (1, 2):
                out.append((f"negdiff:{A}:{o}", negdiff_case(A, o)))
    for i in range(16 if q else 300):
        out.append((f"assoc:{i}", assoc_case(i, 3 if i % 3 else 2)))
    for n in DIFF:
        out.append((f"diff:{n}", diff_case(n)))
    out.append(("nd", nd_case))
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

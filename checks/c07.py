"""C07: scaling a position by a number is Euclidean in any representation."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
from mon import model as M, gen as G, runtime as R, instrument as I

PROP = "C07"
RULE = ("a case multiplies / divides positions of one representation by scalars (int, float, NumPy, JAX; positive, "
        "negative, zero, tiny, huge; Parallax/DistanceModulus components; eager and jit) and compares the denoted point "
        "with the scaled independent point and the result with the canonical ranges; plus refusal of array factors and "
        "component-wise products of two positions; distinct = (class, operation, scalar kind, regime)")
ASSUMPTIONS = ["a radial (1D) position is scaled by non-negative numbers only (it cannot denote a negative point)"]
REQUIRED = {"mul": 200, "div": 100, "law": 40, "refused": 15, "product": 30, "jit": 8, "differential": 10}
FAM = {1: M.POS1, 2: M.POS2, 3: M.POS3}
SCALARS = [2.5, -1.5, 3, -2, 1, 1.0, -1.0, 0.0, 0, 1e-6, -1e7, "np", "-np", "jnp", "-jnp", "np32"]


def scalar(s):
    import jax.numpy as jnp

    if s == "np":
        return np.float64(0.75), 0.75
    if s == "-np":
        return np.float64(-0.75), -0.75
    if s == "jnp":
        return jnp.asarray(1.25), 1.25
    if s == "-jnp":
        return jnp.asarray(-4.0), -4.0
    if s == "np32":
        return np.float32(0.5), 0.5
    return s, float(s)


def tolf(W, S, D):
    t = 1e-12 * S + (2e-7 * np.maximum(S, D) if D else 0)
    return t + 0 * W


def judge(ctx, out, A, want, S, D, mech, **w):
    ctx.check(type(out).__name__ == A, mech + ":type", f"result is {type(out).__name__}", **w)
    e = I.range_errors(out)
    ctx.check(not e, mech + ":range", str(e), **w)
    if D is not None:
        ctx.close(M.delta_kpc(out), D, 1e-12 * D, mech + ":Delta", "focal length kept", **w)
    ctx.close(M.cart(out), want, tolf(want, S, D), mech + ":point", f"{w}")


def scale_case(A, d, reg):
    def run(ctx):
        n = 10
        X = G.points(ctx.rng, d, n, reg)
        if A == "RadialPos":
            X = np.abs(X)
        D = float(ctx.rng.uniform(0.3, 2)) * max(float(np.abs(X).max()), 1e-6) if "Prol" in A else None
        for dt in (["auto"] if A not in M.DISTCOMP else (["q", "Parallax", "DistanceModulus", "Distance"] if not ctx.quick() else ["q", G.pick(ctx.rng, ["Parallax", "DistanceModulus"])])):
            for s in (SCALARS if not ctx.quick() else [-1.5, 2, 0.0, "-jnp", G.pick(ctx.rng, SCALARS), G.pick(ctx.rng, SCALARS)]):
                sv, f = scalar(s)
                if A == "RadialPos" and f < 0:
                    continue
                w = dict(cls=A, regime=reg, scalar=s, dist=dt)
                with ctx.scope("scale", **w):
                    a, Xt, _ = G.make_pos(ctx.rng, A, X, D, disttype=dt)
                    S = np.sqrt((Xt**2).sum(-1, keepdims=True))
                    S = np.maximum(S, D) if D else S
                    for mech, fn in (("mul:left", lambda: sv * a), ("mul:right", lambda: a * sv)):
                        if mech == "mul:left" and isinstance(sv, (np.ndarray, np.generic)):
                            fn = lambda: a.__rmul__(sv)  # NumPy's own __mul__ would see an object array
                        judge(ctx, fn(), A, f * Xt, abs(f) * S, abs(f) * D if D and abs(f) > 1 else D, mech, **w) if D is None else \
                            judge_prol(ctx, fn(), A, f * Xt, abs(f) * S, D, mech, **w)
                        ctx.ev("mul")
                    if f != 0:
                        o = a / sv
                        judge(ctx, o, A, Xt / f, S / abs(f), None, "div", **w) if D is None else \
                            judge_prol(ctx, o, A, Xt / f, S / abs(f), D, "div", **w)
                        ctx.ev("div")
                    ctx.distinct(A, reg, s, dt)
                    ctx.sample(cls=A, regime=reg, scalar=s, point=Xt[0])
    return run


def judge_prol(ctx, out, A, want, S, D, mech, **w):
    judge(ctx, out, A, want, np.maximum(S, D), D, mech, **w)


def law_case(A, d):
    def run(ctx):
        import jax
        X, Y = G.points(ctx.rng, d, 8, "octants"), G.points(ctx.rng, d, 8, "octants")
        if A == "RadialPos":
            X, Y = np.abs(X), np.abs(Y)
        D = 1.3 if "Prol" in A else None
        sg = 1 if A == "RadialPos" else -1
        w = dict(cls=A)
        with ctx.scope("law", **w):
            a, Xt, _ = G.make_pos(ctx.rng, A, X, D)
            b, Yt, _ = G.make_pos(ctx.rng, A, Y, D)
            S = np.maximum(np.sqrt((Xt**2).sum(-1, keepdims=True)), np.sqrt((Yt**2).sum(-1, keepdims=True)))
            for mech, o, want in (
                ("law:associative", (2.0 * (sg * 1.5 * a)), 3.0 * sg * Xt), ("law:associative", ((2.0 * sg * 1.5) * a), 3.0 * sg * Xt),
                ("law:unit", 1 * a, Xt), ("law:distribute", sg * 0.5 * (a + b), sg * 0.5 * (Xt + Yt)),
                ("law:distribute", sg * 0.5 * a + sg * 0.5 * b, sg * 0.5 * (Xt + Yt)) if sg < 0 or True else None,
                ("law:div-mul", (a / 4.0) * 4.0, Xt),
                ("law:mul-inverse", (a / 8.0) - 0.125 * a if A != "RadialPos" else 0 * a, 0 * Xt)):
                ctx.close(M.cart(o), want, 5 * tolf(want, S, D), mech, f"{w}")
                ctx.ev("law")
            o = jax.jit(lambda p, s: s * p)(a, sg * 2.5)
            ctx.close(M.cart(o), sg * 2.5 * Xt, 5 * tolf(Xt, S, D), "jit:mul", f"{w}")
            o = jax.jit(lambda p, s: p / s)(a, sg * 2.5)
            ctx.close(M.cart(o), sg * Xt / 2.5, 5 * tolf(Xt, S, D), "jit:div", f"{w}")
            ctx.ev("jit", 2)
            ctx.distinct("law", A)
            # scalars and other shapes
            for shp in ((), G.deep(ctx.rng)):
                X2 = np.abs(G.points(ctx.rng, d, max(1, int(np.prod(shp, dtype=int))), "octants")).reshape(shp + (d,))
                c, Zt, _ = G.make_pos(ctx.rng, A, X2, D)
                o = 3.5 * c
                ctx.check(o.shape == shp, "mul:shape", f"{o.shape}", **w)
                ctx.close(M.cart(o), 3.5 * Zt, 1e-6 * (1 + np.abs(Zt).max()) if D else 1e-11 * np.abs(Zt).max(), "mul:shape-point", f"{A} {shp}")
                o = c / 3.5
                ctx.check(o.shape == shp, "div:shape", f"{o.shape}", **w)
                ctx.close(M.cart(o), Zt / 3.5, 1e-6 * (1 + np.abs(Zt).max()) if D else 1e-11 * np.abs(Zt).max(), "div:shape-point", f"{A} {shp}")
                ctx.ev("mul"); ctx.ev("div")
    return run


def refuse(ctx, arr, b, A):
    ctx.must_raise(lambda: arr * b, "refuse:left", msg=f"array {arr.shape} * {A}{b.shape}", cls=A)
    ctx.must_raise(lambda: b * arr, "refuse:right", msg=f"{A}{b.shape} * array {arr.shape}", cls=A)
    ctx.ev("refused", 2)
    ctx.distinct("refuse", A, arr.shape, b.shape)


def refuse_case(A, d):
    def run(ctx):
        import jax.numpy as jnp
        X = np.abs(G.points(ctx.rng, d, 3, "octants"))
        a, _, _ = G.make_pos(ctx.rng, A, X, 1.0)
        for arr in (jnp.array([1.0, 2.0, 3.0]), jnp.ones((2, 3)), jnp.array([2.0]), jnp.ones((0,)), jnp.ones((1, 1)), jnp.ones((0, 3)), jnp.ones((3, 1))):
            for b in (a, a[0], a[:1], a[:0]):
                refuse(ctx, arr, b, A)
    return run


def product_case(A, B, d):
    def run(ctx):
        X, Y = G.points(ctx.rng, d, 6, "octants"), G.points(ctx.rng, d, 6, "octants")
        if d == 1:
            X, Y = np.abs(X), np.abs(Y)
        D = 0.9 if "Prol" in A + B else None
        with ctx.scope("product", left=A, right=B):
            a, Xt, _ = G.make_pos(ctx.rng, A, X, D)
            b, Yt, _ = G.make_pos(ctx.rng, B, Y, D)
            o = a * b
            S = np.sqrt((Xt**2).sum(-1, keepdims=True)) * np.sqrt((Yt**2).sum(-1, keepdims=True))
            ctx.close(M.val(o, "kpc2"), Xt * Yt, (1e-6 if D else 1e-12) * (S + (1 if D else 0)) + 0 * Xt, "product:value", f"{A}*{B}")
            ctx.ev("product"); ctx.distinct("product", A, B)
    return run


def diff_case(name, order):
    def run(ctx):
        pn = M.posname(name)
        comps = [k for k, _ in M.REPS[pn][1]]
        for s in (2.0, -0.5, 3, 0.0):
            with ctx.scope("differential", cls=name, scalar=s):
                a, ra = G.make_diff(ctx.rng, pn, order, {k: ctx.rng.normal(size=5) for k in comps})
                o = s * a
                ctx.check(type(o).__name__ == name, "differential:type", type(o).__name__)
                r = M.read_rates(o, order)
                for k in comps:
                    ctx.close(r[k], s * ra[k], 1e-13 * np.abs(ra[k]).max(), "differential:mul", f"{name}.{k} * {s}")
                ctx.ev("differential"); ctx.distinct("diff", name, s)
    return run


def nd_case(ctx):
    v = G.vecs()
    for n in (1, 4):
        for shp in ((), (3,), (2, 2), (2, 1, 3)):
            x = ctx.rng.normal(size=shp + (n,))
            a = v.CartesianPosND.from_(x, "pc")
            with ctx.scope("nd", n=n, shape=shp):
                for s in (2.0, -3):
                    ctx.close(M.val((s * a).q, "pc"), s * x, 1e-13, "nd:mul"); ctx.ev("mul")
                    ctx.close(M.val((a * s).q, "pc"), s * x, 1e-13, "nd:mul"); ctx.ev("mul")
                    ctx.close(M.val((a / s).q, "pc"), x / s, 1e-13, "nd:div"); ctx.ev("div")
                ctx.close(M.val(a * a, "pc2"), x * x, 1e-12, "nd:product"); ctx.ev("product")
                y = ctx.rng.normal(size=shp + (n,))
                ctx.close(M.val(a * v.CartesianPosND.from_(y, "kpc"), "pc kpc"), x * y, 1e-12, "nd:product"); ctx.ev("product")
            import jax.numpy as jnp
            for ash in ((1,), (n,), (3,), (1, 1), shp + (n,), shp + (1,), (0,)):
                refuse(ctx, jnp.full(ash, 2.0), a, "CartesianPosND")
                ctx.distinct("nd", n, shp)


def cases(tier):
    q = tier == "quick"
    out = []
    for reg in (["octants", "axes"] if q else [r for r in G.REGIMES for _ in range(2)]):
        for d in (3, 2, 1):
            for A in FAM[d]:
                out.append((f"scale:{A}:{reg}:{len(out)}", scale_case(A, d, reg)))
    for d in (3, 2, 1):
        for A in FAM[d]:
            out.append((f"law:{A}", law_case(A, d)))
            out.append((f"refuse:{A}", refuse_case(A, d)))
        for A, B in itertools.product(FAM[d], FAM[d]):
            out.append((f"product:{A}*{B}", product_case(A, B, d)))
    for n, o in (("CartesianVel1D", 1), ("CartesianVel2D", 1), ("CartesianAcc1D", 2), ("CartesianAcc2D", 2)):
        out.append((f"diff:{n}", diff_case(n, o)))
    out.append(("nd", nd_case))
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

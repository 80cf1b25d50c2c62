"""C23: norms are Euclidean lengths in every representation; normalising keeps the direction."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import model as M, gen as G, opsmodel as O, runtime as R

PROP = "C23"
RULE = ("a case draws points (generic, octants, axes, planes, near-axis, tiny, huge, branch cut, integers) in one class with mixed units and distance encodings and compares norm, "
        "abs and the metric laws with the Euclidean length of the modelled Cartesian point; velocities and accelerations likewise at base points of every "
        "class; distinct = (class, base class, regime, shape)")
ASSUMPTIONS = ["prolate velocities/accelerations have no norm (their conversion needs the focal length): must raise or be right",
               "a non-Cartesian acceleration norm that is exactly |J a| is the listed known finding (same root as C04)",
               "zero vectors are not normalisable"]
REQUIRED = {"pos": 90, "vel": 25, "acc": 20, "homogeneous": 80, "triangle": 60, "normalize": 40, "nd": 12, "jit": 12, "needs-base": 20}
SHAPES = [(), (5,), (2, 3), (1,), (2, 2, 2), (0,)]
OMIT = "acc:velocity-term-omitted"


def mag(X):
    X = np.asarray(X, dtype=float)
    s = np.abs(X).max(-1, keepdims=True, initial=0)
    s = np.where(s > 0, s, 1.0)
    return np.sqrt(((X / s) ** 2).sum(-1)) * s[..., 0]


def shaped(rng, d, shp, regime):
    n = int(np.prod(shp)) if shp else 1
    return G.points(rng, d, max(n, 1), regime)[:n].reshape(shp + (d,))


def lawful(ctx, q, X, tol, unit, mech, **k):
    """q is the Euclidean length of X: right dimension, non-negative, right value and shape."""
    got = np.asarray(M.val(q, unit))
    want = mag(X)
    if not ctx.check(got.shape == want.shape, mech + ":shape", f"{got.shape} want {want.shape}", **k):
        return got
    ctx.check(bool(np.all(got >= 0)), mech + ":negative", f"{got}", **k)
    ctx.close(got, want, tol * want + 1e-300, mech, "norm", **k)
    return got


def positions(name):
    def run(ctx):
        import jax, quaxed.numpy as qnp
        rng = ctx.rng
        d = M.REPS[name][0]
        for regime in G.REGIMES:
            for rep in range(2 if ctx.quick() else 20):
                shp = G.pick(rng, SHAPES)
                X = shaped(rng, d, shp, regime)
                if name == "RadialPos":
                    X = np.abs(X)
                D = None
                if name.startswith("Prolate"):
                    if regime in ("tiny", "huge", "integers"):
                        continue
                    S = mag(X)
                    D = float(np.median(S)) * 0.5 + 1e-9 if S.size else 1.0
                k = dict(cls=name, regime=regime, shape=shp)
                with ctx.scope("pos", X=X, **k):
                    vec, X, info = G.make_pos(rng, name, X, D)
                    tol = 2e-8 if D else 1e-12
                    if D:  # the focal segment loses half the digits
                        tol = 1e-6 if regime in ("axes", "planes", "nearaxis", "branch") else 1e-9
                    q = vec.norm()
                    if D:
                        # absolute error of mu, nu: eps * max(mu); |x|^2 = mu + nu - D^2
                        want = mag(X)
                        got = np.asarray(M.val(q, "kpc"))
                        ctx.close(got**2, want**2, 1e-11 * (want**2 + D**2), "pos:prolate", "norm^2", **k)
                        ctx.check(bool(np.all(got >= 0)), "pos:negative", f"{got}", **k)
                    else:
                        got = lawful(ctx, q, X, tol, "kpc", "pos", **k)
                    a = abs(vec)
                    ctx.check(bool(np.array_equal(np.asarray(M.val(a, "kpc")), got)), "pos:abs", f"abs {a} norm {q}", **k)
                    ctx.ev("pos"); ctx.distinct(name, regime, shp)
                    ctx.sample(X=X, info=info, **k)
                    if rep == 0 and regime in ("generic", "octants"):
                        j = jax.jit(lambda z: z.norm())(vec)
                        ctx.close(np.asarray(M.val(j, "kpc")), got, 1e-13 * got + 1e-300, "pos:jit", "jit", **k)
                        ctx.ev("jit")
                        if shp == (5,):
                            qv = jax.vmap(lambda z: z.norm())(vec) if info and all(np.shape(getattr(vec, c).value) == (5,) for c in vec.components) and not D else q
                            ctx.close(np.asarray(M.val(qv, "kpc")), got, 1e-13 * got + 1e-300, "pos:vmap", "vmap", **k)
                    if D:
                        continue
                    # homogeneity with a scalar of either sign (1D radial positions cannot change sign)
                    s = float(G.pick(rng, [2.0, -3.0, 0.0, 1e-3, -1.5])) if name != "RadialPos" else float(G.pick(rng, [2.0, 1e-3, 7.5]))
                    h = (s * vec).norm()
                    ctx.close(np.asarray(M.val(h, "kpc")), abs(s) * got, 1e-11 * abs(s) * got + 1e-300, "homogeneous", f"|{s} x|", **k)
                    ctx.ev("homogeneous")
                    if name != "RadialPos" and name != "CartesianPos1D":
                        n = (-vec).norm()
                        ctx.close(np.asarray(M.val(n, "kpc")), got, 1e-11 * got + 1e-300, "negation", "|-x|", **k)
                    # triangle inequality through the library's own addition
                    if regime != "huge" and name != "RadialPos":
                        other, Y, _ = G.make_pos(rng, name, shaped(rng, d, shp, G.pick(rng, ["generic", "planes"])), D, disttype="q")
                        t = np.asarray(M.val((vec + other).norm(), "kpc"))
                        m2 = mag(Y)
                        ctx.check(bool(np.all(t <= (got + m2) * (1 + 1e-10) + 1e-300)) and bool(np.all(t >= np.abs(got - m2) - 1e-10 * (got + m2))), "triangle", f"{t} vs {got}+{m2}", **k)
                        ctx.close(t, mag(X + Y), 1e-9 * (got + m2), "triangle:value", "|x+y|", **k)
                        ctx.ev("triangle")
        # components of unequal shapes broadcast
        if d > 1 and not name.startswith("Prolate"):
            v = G.vecs()
            X = shaped(rng, d, (4,), "generic")
            vec, X, _ = G.make_pos(rng, name, X, None, disttype="q")
            comps = list(vec.components)
            for keep in [(c,) for c in comps] + [tuple(c for c in comps if c != x) for x in comps if d > 2]:  # the batched components
                kw = {c: getattr(vec, c) if c in keep else getattr(vec, c)[2] for c in comps}
                b = getattr(v, name)(**kw)
                with ctx.scope("pos:broadcast", cls=name, batched=keep):
                    lawful(ctx, b.norm(), np.broadcast_to(M.cart(b), (4, d)), 1e-12, "kpc", "pos:broadcast", cls=name, batched=keep)
                    ctx.ev("pos")
    return run


def diffs(d, an):
    """Norms of velocities and accelerations of family ``an`` at base points of every class."""
    def run(ctx):
        import jax
        v = G.vecs()
        rng = ctx.rng
        fam = {1: M.POS1, 2: M.POS2, 3: M.POS3}[d]
        coslat = an == "coslat"
        name = "LonLatSphericalPos" if coslat else an
        cartes = name.startswith("Cartesian")
        prol = name.startswith("Prolate")
        for base in fam:
            for rep in range(1 if ctx.quick() else 12):
                shp = G.pick(rng, SHAPES[:4])
                X = O.away(rng, d, shp)
                if d == 1:
                    X = np.abs(X)
                D = 0.6 if (prol or base.startswith("Prolate")) else None
                pos, X, _ = G.make_pos(rng, base, X, D if base.startswith("Prolate") else None)
                c = M.coords_of(name, X, D if prol else None)
                DD = D if prol else None
                V0 = rng.normal(size=X.shape) * np.sqrt((X**2).sum(-1, keepdims=True))
                if rng.random() < 0.15:
                    V0 = V0 * 0.0
                rates = M.coord_vel(name, c, V0, DD)
                vel, bk = G.make_diff(rng, name, 1, rates, coslat=np.cos(c["lat"]) if coslat else None)
                V = M.cart_vel(name, c, bk, DD)
                k = dict(cls=type(vel).__name__, base=base, shape=shp)
                tol = 1e-7 if D else 1e-10
                with ctx.scope("vel", X=X, V=V, **k):
                    if prol:
                        try:
                            q = vel.norm(pos)
                        except Exception:
                            q = None
                            ctx.ev("needs-base")
                    else:
                        q = vel.norm(pos)
                    if q is not None:
                        got = lawful(ctx, q, V, tol, "kpc/Myr", "vel", **k)
                        ctx.ev("vel"); ctx.distinct("vel", type(vel).__name__, base, shp)
                        ctx.sample(X=X, V=V, **k)
                        if rep == 0 and base == name:
                            j = jax.jit(lambda a, b: a.norm(b))(vel, pos)
                            ctx.close(np.asarray(M.val(j, "kpc/Myr")), got, 1e-12 * got + 1e-300, "vel:jit", "jit", **k)
                            n = (-vel).norm(pos)
                            ctx.close(np.asarray(M.val(n, "kpc/Myr")), got, 1e-12 * got + 1e-300, "vel:negation", "|-v|", **k)
                            ctx.ev("jit")
                if cartes:
                    with ctx.scope("vel:alone", **k):
                        for q in (vel.norm(), abs(vel)):
                            lawful(ctx, q, V, 1e-12, "kpc/Myr", "vel:alone", **k)
                elif rep == 0:
                    ctx.must_raise(lambda: vel.norm(), "needs-base:vel", msg="norm without a position", **k)
                    ctx.must_raise(lambda: abs(vel), "needs-base:vel", msg="abs without a position", **k)
                    ctx.ev("needs-base")
                # accelerations
                if coslat:
                    continue
                rates2 = M.coord_vel(name, c, rng.normal(size=X.shape) * np.sqrt((X**2).sum(-1, keepdims=True)), DD)
                acc, abk = G.make_diff(rng, name, 2, rates2)
                vb = G.pick(rng, [n for n in fam if not n.startswith("Prolate")])
                cb = M.coords_of(vb, X, None)
                bvel, bvk = G.make_diff(rng, vb, 1, M.coord_vel(vb, cb, V0, None))
                Vb = M.cart_vel(vb, cb, bvk, None)
                r1 = M.coord_vel(name, c, Vb, DD)
                A0 = M.cart_vel(name, c, abk, DD)
                A = A0 + M.quad_term(name, c, r1, DD)
                k = dict(cls=type(acc).__name__, base=base, vel=vb, shape=shp)
                with ctx.scope("acc", X=X, **k):
                    if prol:
                        try:
                            q = acc.norm(bvel, pos)
                        except Exception:
                            q = None
                            ctx.ev("needs-base")
                    else:
                        q = acc.norm(bvel, pos)
                    if q is not None:
                        got = np.asarray(M.val(q, "kpc/Myr2"))
                        full, part = mag(A), mag(A0)
                        S = np.maximum(full, part)
                        tol2 = (1e-6 if D else 1e-9) * S + 1e-300
                        ctx.check(got.shape == full.shape and bool(np.all(got >= 0)), "acc:shape", f"{got}", **k)
                        if got.shape == full.shape and got.size and not np.all(np.abs(got - full) <= tol2) and np.all(np.abs(got - part) <= tol2):
                            ctx.violation(OMIT, "norm is |J a|: the velocity-dependent term of the Cartesian acceleration is missing", **k)
                        else:
                            ctx.close(got, full, tol2, "acc", "norm", **k)
                        ctx.ev("acc"); ctx.distinct("acc", type(acc).__name__, base, vb, shp)
                if cartes:
                    with ctx.scope("acc:alone", **k):
                        for q in (acc.norm(), abs(acc), acc.norm(bvel), acc.norm(bvel, pos)):
                            lawful(ctx, q, A0, 1e-12, "kpc/Myr2", "acc:alone", **k)
                elif rep == 0:
                    ctx.must_raise(lambda: acc.norm(), "needs-base:acc", msg="norm without velocity and position", **k)
                    ctx.must_raise(lambda: acc.norm(bvel), "needs-base:acc", msg="norm without position", **k)
                    ctx.ev("needs-base")
    return run


def nd(ctx):
    import jax
    v = G.vecs()
    rng = ctx.rng
    for it in range(8 if ctx.quick() else 60):
        N = int(rng.integers(1, 9))
        shp = G.pick(rng, SHAPES)
        for cls, f, pool, std, o in (("CartesianPosND", "q", G.LENU, "kpc", 0), ("CartesianVelND", "d_q", G.SPDU, "kpc/Myr", 1), ("CartesianAccND", "d2_q", G.ACCU, "kpc/Myr2", 2)):
            un = G.pick(rng, pool)
            x = rng.normal(size=shp + (N,)) * 10.0 ** rng.uniform(-8, 8)
            if rng.random() < 0.15:
                x = x * 0.0
            vec = getattr(v, cls)(G.quantity(x, un))
            k = dict(cls=cls, N=N, shape=shp, un=un)
            with ctx.scope("nd", **k):
                for q in (vec.norm(), abs(vec), jax.jit(lambda z: z.norm())(vec)) + ((vec.norm(v.CartesianPosND(G.quantity(x, "kpc"))),) if o else ()):
                    lawful(ctx, q, x * M.factor(un, std), 1e-12, std, "nd", **k)
                n = (-vec).norm()
                lawful(ctx, n, x * M.factor(un, std), 1e-12, std, "nd:negation", **k)
                ctx.ev("nd"); ctx.distinct(cls, N, shp)


def normalize(ctx):
    import jax, jax.numpy as jnp
    import unxt as u
    v = G.vecs()
    rng = ctx.rng
    for it in range(24 if ctx.quick() else 240):
        shp = G.pick(rng, [(), (4,), (2, 3), (1,)])
        N = int(rng.integers(1, 7))
        regime = G.pick(rng, ["generic", "octants", "axes", "planes", "tiny", "huge"])
        x = shaped(rng, N, shp, regime) if N > 3 or N < 1 or regime not in ("generic",) or N == 3 else shaped(rng, N, shp, "octants")
        x = np.where(mag(x)[..., None] > 0, x, 1.0)
        n = x / mag(x)[..., None]
        k = dict(N=N, shape=shp, regime=regime)
        un = G.pick(rng, G.LENU + G.SPDU + ["kg", ""])
        with ctx.scope("normalize", **k):
            fn = G.pick(rng, [v.normalize_vector, jax.jit(v.normalize_vector)])
            a = fn(jnp.asarray(x))
            ctx.close(np.asarray(a), n, 1e-14, "normalize:array", "", **k)
            q = fn(u.Quantity(jnp.asarray(x), un))
            ctx.close(np.asarray(q.value) * M.factor(str(q.unit) or "", ""), n, 1e-14, "normalize:quantity", str(q.unit), **k)
            ctx.ev("normalize", 2)
            ctx.distinct("normalize", N, shp, regime)
        X = shaped(rng, 3, shp, regime)
        vec, X, info = G.make_pos(rng, "CartesianPos3D", X)
        with ctx.scope("normalize:vector", **k):
            w = v.normalize_vector(vec)
            ctx.check(type(w) is v.CartesianGeneric3D and w.shape == shp, "normalize:vector-type", f"{type(w)}", **k)
            got = np.stack([np.broadcast_to(np.asarray(getattr(w, c).value) * M.factor(str(getattr(w, c).unit) or "", ""), shp) for c in "xyz"], -1)
            ctx.close(got, X / mag(X)[..., None], 1e-13, "normalize:vector", f"{info}", **k)
            for s in (3.0, 1e-4):
                w2 = v.normalize_vector(s * vec)
                g2 = np.stack([np.broadcast_to(np.asarray(getattr(w2, c).value) * M.factor(str(getattr(w2, c).unit) or "", ""), shp) for c in "xyz"], -1)
                ctx.close(g2, got, 1e-13, "normalize:scale", f"{s}", **k)
            g3 = v.normalize_vector(-vec)
            g3 = np.stack([np.broadcast_to(np.asarray(getattr(g3, c).value) * M.factor(str(getattr(g3, c).unit) or "", ""), shp) for c in "xyz"], -1)
            ctx.close(g3, -got, 1e-13, "normalize:opposite", "", **k)
            ctx.ev("normalize")


def cases(tier):
    out = [(f"pos:{n}", positions(n)) for n in M.REPS]
    for d, fam in ((1, M.POS1), (2, M.POS2), (3, M.POS3)):
        out += [(f"diff:{n}", diffs(d, n)) for n in fam]
    return out + [("diff:coslat", diffs(3, "coslat")), ("nd", nd), ("normalize", normalize)]


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

"""C24: converting a vector to a quantity lists its Cartesian components in order."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import model as M, gen as G, build as B, runtime as R

PROP = "C24"
RULE = ("a case draws points (all coordinate regimes) in one class, mixed units, distance encodings and component shapes, converts them to every supported quantity type and "
        "compares the array with the modelled Cartesian coordinates on the last axis; Cartesian/radial velocities and accelerations against their components; "
        "the matching Cartesian class rebuilt from the quantity must be the same point; distinct = (class, regime, shape pattern, quantity type)")
ASSUMPTIONS = ["TwoSpherePos has no radius and hence no Cartesian form; CartesianGeneric3D and N-dimensional differentials offer no conversion (must raise or be right)"]
REQUIRED = {"pos": 300, "diff": 80, "back": 150, "broadcast": 20, "nd": 20, "jit": 15, "refused": 15}
SHAPES = [(), (4,), (2, 3), (1,), (2, 2, 2), (0,)]
CART = {1: "CartesianPos1D", 2: "CartesianPos2D", 3: "CartesianPos3D"}


def targets(length=True):
    import unxt as u
    from unxt.quantity import AbstractQuantity, UncheckedQuantity
    from coordinax.distance import Distance
    t = {"Quantity": u.Quantity, "UncheckedQuantity": UncheckedQuantity}
    return {**t, "Distance": Distance, "AbstractQuantity": AbstractQuantity} if length else t


def judge(ctx, q, X, tol, std, tn, mech, **k):
    if tn != "AbstractQuantity":
        ctx.check(type(q).__name__.split("[")[0] == tn, mech + ":type", f"{type(q).__name__} want {tn}", **k)
    try:
        f = M.factor(str(q.unit), std)
    except Exception as e:
        return ctx.violation(mech + ":unit", f"{q.unit}: {e}", **k)
    ctx.close(np.asarray(q.value) * f, X, tol, mech, f"-> {tn}", **k)


def pos(name):
    def run(ctx):
        import jax
        from plum import convert
        v = G.vecs()
        rng = ctx.rng
        d = M.REPS[name][0]
        C = getattr(v, CART[d])
        for regime in G.REGIMES:
            for rep in range(2 if ctx.quick() else 20):
                shp = G.pick(rng, SHAPES)
                n = max(1, int(np.prod(shp)) if shp else 1)
                X = G.points(rng, d, n, regime)[: int(np.prod(shp)) if shp else 1].reshape(shp + (d,))
                if name == "RadialPos":
                    X = np.abs(X)
                D = None
                if name.startswith("Prolate"):
                    if regime in ("tiny", "huge", "integers"):
                        continue
                    S = np.sqrt((X**2).sum(-1))
                    D = float(np.median(S)) * 0.5 + 1e-9 if S.size else 1.0
                k = dict(cls=name, regime=regime, shape=shp)
                with ctx.scope("pos", X=X, **k):
                    vec, X, info = G.make_pos(rng, name, X, D)
                    S = np.sqrt((X**2).sum(-1, keepdims=True))
                    tol = 1e-12 * S + 1e-300
                    if D:  # sqrt(mu - D^2) and sqrt(nu) lose half the digits next to the focal segment
                        tol = 1e-7 * (S + D) + 0 * X
                    if regime in ("tiny",) and M.DISTCOMP.get(name):
                        tol = 1e-12 * S + 1e-300
                    for tn, t in targets().items():
                        q = convert(vec, t)
                        judge(ctx, q, X, tol, "kpc", tn, "pos", **k)
                        ctx.ev("pos"); ctx.distinct(name, regime, shp, tn)
                        if d == 1 and tn not in ("Quantity", "AbstractQuantity"):
                            continue  # the 1D constructor takes length quantities only
                        b = C.from_(q)
                        ctx.check(type(b) is C and b.shape == shp, "back:type", f"{type(b)} {b.shape}", **k)
                        ctx.close(np.stack([np.broadcast_to(M.val(getattr(b, c), "kpc"), shp) for c in "xyz"[:d]], -1), X, tol, "back", f"via {tn}", **k)
                        ctx.ev("back")
                    ctx.sample(X=X, info=info, **k)
                    if rep == 0 and regime == "generic":
                        q = jax.jit(lambda z: convert(z, targets()["Quantity"]))(vec)
                        judge(ctx, q, X, tol, "kpc", "Quantity", "pos:jit", **k)
                        ctx.ev("jit")
                    # commutes with indexing
                    if shp and shp[0] > 1:
                        i = int(rng.integers(shp[0]))
                        judge(ctx, convert(vec[i], targets()["Quantity"]), X[i], tol[i], "kpc", "Quantity", "pos:index", **k)
        # unequal component shapes
        comps = [c for c, _ in M.REPS[name][1]]
        if len(comps) > 1:
            for rep in range(4 if ctx.quick() else 40):
                X = G.points(rng, d, 6, "generic").reshape(2, 3, d)
                D = 0.3 * float(np.sqrt((X**2).sum(-1)).min()) if name.startswith("Prolate") else None
                vec, X, _ = G.make_pos(rng, name, X, D, disttype="q")
                shapes, kw = {}, {}
                for c in comps:
                    s = G.pick(rng, [(2, 3), (), (1, 3), (2, 1), (3,)])
                    q = getattr(vec, c)
                    shapes[c] = s
                    kw[c] = {(2, 3): lambda: q, (): lambda: q[1, 1], (1, 3): lambda: q[:1], (2, 1): lambda: q[:, :1], (3,): lambda: q[0]}[s]()
                if D:
                    kw["Delta"] = vec.Delta
                b = getattr(v, name)(**kw)
                full = np.broadcast_shapes(*shapes.values())
                with ctx.scope("broadcast", cls=name, shapes=shapes):
                    Y = np.broadcast_to(M.cart(b), full + (d,))
                    S = np.sqrt((Y**2).sum(-1, keepdims=True))
                    for tn, t in targets().items():
                        judge(ctx, convert(b, t), Y, (1e-7 if D else 1e-12) * S + 0 * Y, "kpc", tn, "broadcast", cls=name, shapes=shapes)
                    ctx.ev("broadcast"); ctx.distinct(name, "broadcast", tuple(shapes.values()))
    return run


DIFFS = ["CartesianVel1D", "CartesianVel2D", "CartesianVel3D", "CartesianAcc1D", "CartesianAcc2D", "CartesianAcc3D", "RadialVel", "RadialAcc"]


def diff(n):
    def run(ctx):
        import jax
        from plum import convert
        v = G.vecs()
        rng = ctx.rng
        o, comps = B.FIELDS[n]
        std = B.unit_of(n, comps[0][0])
        for rep in range(10 if ctx.quick() else 80):
            full = G.pick(rng, SHAPES + [(2, 3)])
            vals, kw, cols = {}, {}, []
            for c, _ in comps:
                s = full if rng.random() < 0.7 or full == () else G.pick(rng, [(), (1,) * len(full), full[-1:]])
                vals[c] = rng.normal(size=s) * 10.0 ** rng.uniform(-6, 6)
                un = G.pick(rng, [G.SPDU, G.ACCU][o - 1])
                kw[c] = G.quantity(vals[c], un)
                cols.append(vals[c] * M.factor(un, std))
            full = np.broadcast_shapes(*[np.shape(x) for x in cols])
            X = np.stack([np.broadcast_to(x, full) for x in cols], -1)
            vec = getattr(v, n)(**kw)
            tol = 1e-13 * np.abs(X) + 1e-300
            k = dict(cls=n, shape=full)
            with ctx.scope("diff", X=X, **k):
                for tn, t in targets(False).items():
                    q = convert(vec, t)
                    judge(ctx, q, X, tol, std, tn, "diff", **k)
                    ctx.ev("diff"); ctx.distinct(n, full, tn)
                    if tn == "Quantity":
                        b = getattr(v, n).from_(q)
                        ctx.close(np.stack([np.broadcast_to(M.val(getattr(b, c), std), full) for c, _ in comps], -1), X, 4 * tol, "diff:back", "", **k)
                        ctx.ev("back")
                if rep == 0:
                    judge(ctx, jax.jit(lambda z: convert(z, targets()["Quantity"]))(vec), X, tol, std, "Quantity", "diff:jit", **k)
                    ctx.ev("jit")
                ctx.sample(X=X, **k)
    return run


def nd(ctx):
    import jax
    from plum import convert
    v = G.vecs()
    rng = ctx.rng
    for it in range(12 if ctx.quick() else 100):
        N = int(rng.integers(1, 8))
        shp = G.pick(rng, SHAPES)
        un = G.pick(rng, G.LENU)
        x = rng.normal(size=shp + (N,))
        vec = v.CartesianPosND(G.quantity(x, un))
        X = x * M.factor(un, "kpc")
        with ctx.scope("nd", N=N, shape=shp):
            for tn, t in targets().items():
                q = convert(vec, t)
                judge(ctx, q, X, 1e-14 * np.abs(X), "kpc", tn, "nd", N=N, shape=shp)
                b = v.CartesianPosND.from_(q) if tn != "UncheckedQuantity" and tn != "Distance" else v.CartesianPosND(q)
                ctx.close(np.asarray(M.val(b.q, "kpc")), X, 1e-13 * np.abs(X), "nd:back", tn, N=N, shape=shp)
                ctx.ev("nd"); ctx.ev("back"); ctx.distinct("nd", N, shp, tn)


def refused(ctx):
    """Vectors without a Cartesian component list of their own: an error, or the right numbers, never something else."""
    from plum import convert
    rng = ctx.rng
    v = G.vecs()
    for n in B.VEL + B.ACC + ["TwoSpherePos"]:
        if n in DIFFS:
            continue
        vec = B.build(n, B.sane(rng, n, (2,)))
        for tn, t in targets().items():
            try:
                q = convert(vec, t)
            except (Exception, RecursionError):
                ctx.ev("refused")
                ctx.check(True, "refused", "")
                continue
            ctx.violation("refused", f"convert({n}, {tn}) returned {q} although the components are not Cartesian", cls=n)
        ctx.distinct("refused", n)
    for n in DIFFS:  # speeds are not distances
        vec = B.build(n, B.sane(rng, n, (2,)))
        ctx.must_raise(lambda: convert(vec, targets()["Distance"]), "refused:distance", msg=n)
        ctx.ev("refused")


def cases(tier):
    return [(f"pos:{n}", pos(n)) for n in M.REPS] + [(f"diff:{n}", diff(n)) for n in DIFFS] + [("nd", nd), ("refused", refused)]


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

"""C05: dimension-changing conversions follow their documented projections."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import warnings
import numpy as np
from mon import model as M, gen as G, runtime as R

PROP = "C05"
RULE = ("a case changes the dimension of a batch of positions between two classes (regimes, units, component types, "
        "keyword or default fill values, eager and jit) and compares with the documented projection/embedding of the "
        "independently computed point, and records which warnings the call issued; distinct = (source, target, regime, "
        "keywords, units)")
ASSUMPTIONS = ["conversions that the library does not register (LonLat or two-sphere to lower dimensions) are out of scope"]
REQUIRED = {"lower": 100, "raise": 60, "raise-keyword": 60, "warned": 100, "silent": 100, "drop-raised": 20, "same-dim-silent": 20}

# documented kept quantity when lowering
LOWER = []
for s in ("CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos", "ProlateSpheroidalPos"):
    for t in ("CartesianPos1D", "RadialPos", "CartesianPos2D", "PolarPos"):
        LOWER.append((s, t))
for s in ("CartesianPos2D", "PolarPos"):
    for t in ("CartesianPos1D", "RadialPos"):
        LOWER.append((s, t))


def expected_lower(s, t, X):
    if t == "CartesianPos1D":
        return X[..., :1]
    if t in ("CartesianPos2D", "PolarPos"):
        return X[..., :2]
    # radial: full radius; polar and cylindrical vectors use their planar radius
    if s in ("PolarPos", "CylindricalPos"):
        return np.hypot(X[..., 0], X[..., 1])[..., None]
    return np.sqrt((X**2).sum(-1))[..., None]


def record(fn):
    from coordinax.vecs import IrreversibleDimensionChange

    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        out = fn()
    return out, [r for r in rec if issubclass(r.category, IrreversibleDimensionChange)], rec


def lower_case(s, t, regs):
    def run(ctx):
        import jax
        from coordinax import represent_as
        v = G.vecs()
        d = M.REPS[s][0]
        for reg in regs:
            X = G.points(ctx.rng, d, 12, reg)
            D = float(ctx.rng.uniform(0.3, 3)) * (float(np.sqrt((X**2).sum(-1)).max()) or 1.0) if "Prol" in s else None
            w = dict(source=s, target=t, regime=reg, Delta=D)
            with ctx.scope("lower", **w):
                vec, Xt, info = G.make_pos(ctx.rng, s, X, D)
                f = (lambda: vec.represent_as(getattr(v, t))) if ctx.rng.random() < 0.5 else (lambda: represent_as(vec, getattr(v, t)))
                out, irr, _ = record(f)
                want = expected_lower(s, t, Xt)
                ctx.check(type(out).__name__ == t, "lower:type", type(out).__name__, **w)
                ctx.check(out.shape == (12,), "lower:shape", str(out.shape), **w)
                S = np.sqrt((Xt**2).sum(-1, keepdims=True))
                tol = 1e-12 * S if D is None else 1e-7 * np.maximum(S, D)
                ctx.close(M.cart(out), want, tol + 0 * want, "lower:point", f"{w}", units=info["units"])
                ctx.check(len(irr) >= 1, "lower:no-warning", "no IrreversibleDimensionChange issued", **w)
                ctx.ev("lower"); ctx.ev("warned", bool(irr))
                # and again: the warning is issued on every call, not just the first
                _, irr2, _ = record(f)
                ctx.check(len(irr2) == len(irr), "lower:warn-every-call", f"{len(irr)} then {len(irr2)}", **w)
                ctx.distinct(s, t, reg, sorted((k, x) for k, x in info["units"].items()))
                ctx.sample(source=s, target=t, regime=reg, X=Xt[0], kept=want[0])
        for shp in ((), G.deep(ctx.rng)):
            with ctx.scope("lower-shape", source=s, target=t, shape=shp):
                X = G.points(ctx.rng, d, max(1, int(np.prod(shp, dtype=int))), "octants").reshape(shp + (d,))
                D = 1.0 if "Prol" in s else None
                vec, Xt, _ = G.make_pos(ctx.rng, s, X, D, disttype="Distance")
                out, irr, _ = record(lambda: vec.represent_as(getattr(v, t)))
                ctx.check(out.shape == shp, "lower:shape", f"{out.shape} != {shp}")
                want = expected_lower(s, t, Xt)
                ctx.close(M.cart(out), want, 1e-8 * np.maximum(1, np.abs(Xt).max()), "lower:point", f"{s}->{t} {shp}")
                ctx.check(len(irr) >= 1, "lower:no-warning", "scalar/2-D batch"); ctx.ev("warned", bool(irr)); ctx.ev("lower")
                jout, jirr, _ = record(lambda: jax.jit(lambda p: p.represent_as(getattr(v, t)))(vec))
                ctx.close(M.cart(jout), want, 1e-8 * np.maximum(1, np.abs(Xt).max()), "lower:jit", f"{s}->{t} {shp}")
                ctx.check(len(jirr) >= 1, "lower:no-warning-jit", "no warning while tracing")
                ctx.ev("lower")
    return run


# raising: target -> (keyword -> (kind, how the point follows))
def embed(s, t, X, kw):
    """Cartesian 3D/2D point of the raised vector; kw holds fill values in std units."""
    d = M.REPS[s][0]
    g = lambda k: np.asarray(kw.get(k, 0.0))
    x0 = X[..., 0]
    one = np.ones_like(x0)
    if d == 1:
        if t == "CartesianPos2D":
            return np.stack([x0, g("y") * one], -1)
        if t == "PolarPos":
            return np.stack([x0 * np.cos(g("phi")), x0 * np.sin(g("phi"))], -1)
        if t == "CartesianPos3D":
            return np.stack([x0, g("y") * one, g("z") * one], -1)
        if t == "CylindricalPos":
            return np.stack([x0 * np.cos(g("phi")), x0 * np.sin(g("phi")), g("z") * one], -1)
        th, ph = (g("theta"), g("phi")) if t == "SphericalPos" else (g("phi"), g("theta"))
        return np.stack([x0 * np.sin(th) * np.cos(ph), x0 * np.sin(th) * np.sin(ph), x0 * np.cos(th) * one], -1)
    if s == "PolarPos" and t in ("SphericalPos", "MathSphericalPos"):
        r, az = np.hypot(X[..., 0], X[..., 1]), np.arctan2(X[..., 1], X[..., 0])
        th = g("theta") if t == "SphericalPos" else g("phi")
        return np.stack([r * np.sin(th) * np.cos(az), r * np.sin(th) * np.sin(az), r * np.cos(th) * one], -1)
    return np.concatenate([X, (g("z") * one)[..., None]], -1)


RAISE = {}
for s in ("CartesianPos1D", "RadialPos"):
    RAISE.update({(s, "CartesianPos2D"): ["y"], (s, "PolarPos"): ["phi"], (s, "CartesianPos3D"): ["y", "z"],
                  (s, "CylindricalPos"): ["phi", "z"], (s, "SphericalPos"): ["theta", "phi"], (s, "MathSphericalPos"): ["theta", "phi"]})
for t in ("CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos"):
    RAISE[("CartesianPos2D", t)] = ["z"]
RAISE.update({("PolarPos", "CartesianPos3D"): ["z"], ("PolarPos", "CylindricalPos"): ["z"],
              ("PolarPos", "SphericalPos"): ["theta"], ("PolarPos", "MathSphericalPos"): ["phi"]})
LENK = {"y", "z"}


def raise_case(s, t, regs):
    def run(ctx):
        import jax
        v = G.vecs()
        d = M.REPS[s][0]
        keys = RAISE[(s, t)]
        subsets = [()] + [c for n in range(1, len(keys) + 1) for c in itertools.combinations(keys, n)]
        for reg in regs:
            for sub in subsets:
                for batched in ((False,) if not sub else (False, True)):
                    n = 8
                    X = G.points(ctx.rng, d, n, reg)
                    if d == 1 and (s == "RadialPos" or t in ("PolarPos", "CylindricalPos")):
                        X = np.abs(X)
                    w = dict(source=s, target=t, regime=reg, kw=sub, batched=batched)
                    with ctx.scope("raise", **w):
                        vec, Xt, info = G.make_pos(ctx.rng, s, X)
                        if d == 1 and s == "CartesianPos1D" and t in ("PolarPos", "CylindricalPos"):
                            pass
                        kw, raw = {}, {}
                        for k in sub:
                            shp = (n,) if batched else ()
                            kind = M.LEN if k in LENK else M.ANG
                            a = ctx.rng.normal(size=shp) * 3 if kind == M.LEN else (
                                ctx.rng.uniform(0, 2 * np.pi, shp) if not is_polar(t, k) else ctx.rng.uniform(0.0, np.pi, shp))
                            un = G.pick(ctx.rng, G.units_for(kind, 0))
                            val = np.asarray(a) * M.factor(M.STD[kind], un)
                            kw[k], raw[k] = G.quantity(val, un), val * M.factor(un, M.STD[kind])
                        out, irr, allw = record(lambda: vec.represent_as(getattr(v, t), **kw))
                        want = embed(s, t, Xt, raw)
                        ctx.check(type(out).__name__ == t, "raise:type", type(out).__name__, **w)
                        S = np.sqrt((want**2).sum(-1, keepdims=True))
                        ctx.close(M.cart(out), want, 1e-12 * S + 0 * want, "raise:point", f"{w}", fill=raw)
                        ctx.check(not irr, "raise:warned", "raising the dimension warned", **w)
                        ctx.ev("raise-keyword" if sub else "raise"); ctx.ev("silent", not irr)
                        ctx.distinct(s, t, reg, sub, batched, sorted((k, x) for k, x in info["units"].items()))
                        # kept components are stored unchanged for Cartesian -> Cartesian
                        if s.startswith("Cart") and t.startswith("Cart"):
                            for k, _ in M.REPS[s][1]:
                                ctx.close(M.val(getattr(out, k), "kpc"), M.val(getattr(vec, k), "kpc"), 0, "raise:kept", k, **w)
                            back, birr, _ = record(lambda: out.represent_as(getattr(v, s)))
                            for k, _ in M.REPS[s][1]:
                                a, b = getattr(back, k), getattr(vec, k)
                                ctx.check(a.unit == b.unit and np.array_equal(np.asarray(a.value), np.asarray(b.value)),
                                          "drop-raised:value", f"{k}: {a} != {b}", **w)
                            ctx.check(len(birr) >= 1, "drop-raised:no-warning", "", **w)
                            ctx.ev("drop-raised")
        with ctx.scope("raise-jit", source=s, target=t):
            X = np.abs(G.points(ctx.rng, d, 5, "generic"))
            vec, Xt, _ = G.make_pos(ctx.rng, s, X)
            out = jax.jit(lambda p: p.represent_as(getattr(v, t)))(vec)
            want = embed(s, t, Xt, {})
            ctx.close(M.cart(out), want, 1e-12 * np.abs(want).max(), "raise:jit", f"{s}->{t}")
            ctx.ev("raise")
            # scalar vector
            vec0, X0, _ = G.make_pos(ctx.rng, s, X[0])
            out = vec0.represent_as(getattr(v, t))
            ctx.check(out.shape == (), "raise:shape", str(out.shape))
            want = embed(s, t, X0, {})
            ctx.close(M.cart(out), want, 1e-12 * np.abs(want).max(), "raise:scalar", f"{s}->{t}")
            ctx.ev("raise")
            # history independence of the fill value: a keyword must not stick
            for k in keys:
                kind = M.LEN if k in LENK else M.ANG
                vec0.represent_as(getattr(v, t), **{k: G.quantity(0.7, M.STD[kind])})
            out = vec0.represent_as(getattr(v, t))
            ctx.close(M.cart(out), want, 1e-12 * np.abs(want).max(), "raise:default-after-keyword", f"{s}->{t}")
    return run


def is_polar(t, k):
    return (t, k) in {("SphericalPos", "theta"), ("MathSphericalPos", "phi")}


def same_case(d):
    def run(ctx):
        v = G.vecs()
        fam = {1: M.POS1, 2: M.POS2, 3: M.POS3}[d]
        for A, B in itertools.product(fam, fam):
            with ctx.scope("same-dim", source=A, target=B):
                X = np.abs(G.points(ctx.rng, d, 4, "generic"))
                vec, Xt, _ = G.make_pos(ctx.rng, A, X, 1.0)
                kw = {"Delta": G.quantity(1.0, "kpc")} if "Prol" in B else {}
                out, irr, _ = record(lambda: vec.represent_as(getattr(v, B), **kw))
                ctx.check(not irr, "same-dim:warned", f"{A}->{B} warned about a dimension change")
                ctx.ev("same-dim-silent"); ctx.distinct("same", A, B)
    return run


def cases(tier):
    q = tier == "quick"
    out = []
    for s, t in LOWER:
        regs = ["octants", "axes", "branch"] if q else G.REGIMES * 6
        out.append((f"lower:{s}->{t}", lower_case(s, t, regs)))
    for (s, t) in RAISE:
        regs = ["octants", "axes"] if q else [r for r in G.REGIMES if r not in ("huge", "tiny")] * 4
        out.append((f"raise:{s}->{t}", raise_case(s, t, regs)))
    for d in (1, 2, 3):
        out.append((f"same:{d}", same_case(d)))
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

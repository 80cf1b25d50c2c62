"""C18: four-vectors: Minkowski norm, arithmetic, construction, quantity conversion, attribute access, speed of light."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import model as M, gen as G, opsmodel as O, runtime as R

PROP = "C18"
RULE = ("a case draws a four-vector (time scalar or batched, spatial part in any 3D class, default or custom c in any speed unit) and drives norm, + - neg / == , "
        "constructors, quantity conversion, shape operations, attribute access and every operator map, comparing ct, q and c with plain arithmetic; "
        "distinct = (operation, spatial class, c kind, time shape, shape)")
ASSUMPTIONS = ["both operands of a sum carry the same c", "near the light cone (|s^2| < 1e-9 of (ct)^2+q^2) only the magnitude of the norm is bounded"]
REQUIRED = {"norm": 60, "arith": 60, "construct": 60, "convert": 20, "attribute": 60, "refused": 40, "operator": 20}
SHAPES = [(), (3,), (2, 3), (2, 1, 2), (1,)]
CU = ["km/s", "kpc/Myr", "m/s", "AU/yr", "pc/Myr"]


def mk(rng, shp=None, name=None, ckind=None, tsh=None, c=None, cone=None):
    """(four-vector, truth dict)."""
    import coordinax as cx
    shp = G.pick(rng, SHAPES) if shp is None else shp
    name = name or G.pick(rng, M.POS3)
    if tsh is None:
        tsh = G.pick(rng, [shp, shp, (), shp[-1:], tuple(1 for _ in shp)])
    X = O.away(rng, 3, shp)
    D = 0.7 if name.startswith("Prolate") else None
    q, X, _ = G.make_pos(rng, name, X, D)
    if c is None:
        c = O.lightspeed() if ckind == "default" or (ckind is None and rng.random() < 0.4) else 10 ** rng.uniform(-2, 2)
    r = np.sqrt((X ** 2).sum(-1))
    t = rng.normal(size=tsh) * 10 ** rng.uniform(-3, 3) / c * 3
    if cone == "time" and tsh == shp:
        t = np.sign(rng.normal(size=shp)) * r / c * rng.uniform(1.01, 3, shp)
    if cone == "space" and tsh == shp:
        t = r / c * rng.uniform(-0.99, 0.99, shp)
    ut = G.pick(rng, ["Myr", "Gyr", "yr", "s"])
    tv = t * M.factor("Myr", ut)
    t = tv * M.factor(ut, "Myr")
    kw = {}
    if c != O.lightspeed():
        uc = G.pick(rng, CU)
        cv = c * M.factor("kpc/Myr", uc)
        kw["c"] = G.U().Quantity(cv, uc)
        c = cv * M.factor(uc, "kpc/Myr")
    w = cx.FourVector(t=G.quantity(tv, ut), q=q, **kw)
    return w, dict(X=X, t=t, c=c, shp=shp, tsh=tsh, name=name, D=D, kw=kw, cond=1e5 if name.startswith("Prolate") else 3e3)


def scales(T):
    return np.sqrt((T["X"] ** 2).sum(-1)).max(initial=0) + 1e-300, np.abs(T["c"] * T["t"]).max(initial=0) + 1e-300


def judge(ctx, w, T, mech, **k):
    import coordinax as cx
    S, St = scales(T)
    ctx.check(type(w) is cx.FourVector, mech + ":class", f"{type(w)}", **k)
    ctx.check(w.shape == T["shp"], mech + ":shape", f"{w.shape} want {T['shp']}", **k)
    ctx.close(M.val(w.c, "kpc/Myr"), T["c"], 1e-13 * T["c"], mech + ":c", "speed of light", **k)
    t = M.val(w.t, "Myr")
    ctx.close(np.broadcast_to(t, T["shp"]), np.broadcast_to(T["t"], T["shp"]), 1e-13 * (St / T["c"]), mech + ":t", "time", **k)
    ctx.close(M.cart(w.q), T["X"], T["cond"] * 2.3e-16 * S, mech + ":q", "space", **k)


def s2(T):
    return np.broadcast_to((T["c"] * T["t"]) ** 2, T["shp"]) - (T["X"] ** 2).sum(-1)


def norm_case(ctx):
    import jax
    rng = ctx.rng
    for i in range(20 if ctx.quick() else 300):
        for cone in (None, "time", "space"):
            w, T = mk(rng, cone=cone, tsh=None if cone is None else 0, shp=None) if cone is None else (lambda s: mk(rng, shp=s, tsh=s, cone=cone, ckind=G.pick(rng, ["default", "custom"])))(G.pick(rng, SHAPES))
            k = dict(cls=T["name"], c=T["c"], cone=cone, tsh=T["tsh"])
            want = s2(T)
            S2 = (np.abs(T["c"] * T["t"]) ** 2 * np.ones(T["shp"]) + (T["X"] ** 2).sum(-1))
            with ctx.scope("norm", **k):
                fs = {"norm": lambda: w.norm(), "abs": lambda: abs(w)}
                if i % 6 == 0:
                    fs["jit"] = lambda: jax.jit(lambda x: x.norm())(w)
                for how, f in fs.items():
                    n = f()
                    f_ = M.factor(str(n.unit), "kpc")
                    z = np.asarray(n.value) * f_
                    ctx.check(np.iscomplexobj(z) and z.shape == T["shp"], f"norm:{how}:form", f"{z.dtype} {z.shape}", **k)
                    ctx.close((z ** 2).real, want, T["cond"] * 1e-15 * S2, f"norm:{how}:square", "norm^2", **k)
                    ctx.close((z ** 2).imag, 0 * want, T["cond"] * 1e-15 * S2, f"norm:{how}:square-imag", "norm^2", **k)
                    clear = np.abs(want) > 1e-9 * S2
                    ctx.check(bool(np.all(~clear | (want < 0) | ((z.real > 0) & (np.abs(z.imag) <= 1e-12 * z.real)))), f"norm:{how}:timelike", f"{z}", **k)
                    ctx.check(bool(np.all(~clear | (want > 0) | ((z.imag > 0) & (np.abs(z.real) <= 1e-12 * z.imag)))), f"norm:{how}:spacelike", f"{z}", **k)
                    ctx.ev("norm")
                m = w._norm2() if hasattr(type(w), "_norm2") else None
                if m is not None:
                    ctx.close(np.asarray(m.value) * M.factor(str(m.unit), "kpc2"), want, T["cond"] * 1e-15 * S2, "norm2", "", **k)
            ctx.distinct("norm", T["name"], "default" if not T["kw"] else "custom", T["tsh"], T["shp"], cone)
            ctx.sample(op="norm", cls=T["name"], X=T["X"].tolist(), t=np.asarray(T["t"]).tolist(), c=T["c"])


def arith_case(part):
    def run(ctx):
        import jax
        rng = ctx.rng
        for i in range(5 if ctx.quick() else 70):
            shp = G.pick(rng, SHAPES)
            c0 = O.lightspeed() if rng.random() < 0.4 else 10 ** rng.uniform(-2, 2)
            a, A = mk(rng, shp=shp, c=c0)
            b, B = mk(rng, shp=shp, c=c0)
            k = dict(a=A["name"], b=B["name"], ta=A["tsh"], tb=B["tsh"], c=c0)
            before = repr((a, b)) + str(a) + str(b)
            tsh = np.broadcast_shapes(A["tsh"], B["tsh"])
            for op in ("add", "sub", "neg", "pos", "div", "divarr", "eq", "jit"):
                with ctx.scope(f"arith:{op}", **k):
                    if op in ("add", "sub", "jit"):
                        sg = -1 if op == "sub" else 1
                        X = A["X"] + sg * B["X"]
                        if np.any(np.sqrt((X ** 2).sum(-1)) < 1e-2) or A["name"].startswith("Prolate") and np.any(np.abs(X[..., :2]).max(-1) < 1e-2):
                            continue
                        T = dict(A, X=X, t=np.broadcast_to(A["t"], tsh) + sg * np.broadcast_to(B["t"], tsh), cond=1e8 if "Prolate" in A["name"] + B["name"] else 1e5)
                        T["X"] = X
                        out = jax.jit(lambda x, y: x + y)(a, b) if op == "jit" else a + b if sg > 0 else a - b
                        scale = np.abs(A["X"]).max() + np.abs(B["X"]).max()
                        T["cond"] *= max(1, scale / np.sqrt((X ** 2).sum(-1)).min())
                        # relative to the larger time of the two operands
                        sc = max(np.abs(A["t"]).max(), np.abs(B["t"]).max())
                        ctx.check(out.shape == shp, f"arith:{op}:shape", f"{out.shape}", **k)
                        ctx.check(type(out.q) is type(a.q), f"arith:{op}:class", f"{type(out.q)}", **k)
                        ctx.close(M.val(out.c, "kpc/Myr"), A["c"], 1e-13 * A["c"], f"arith:{op}:c", "", **k)
                        ctx.close(np.broadcast_to(M.val(out.t, "Myr"), shp), np.broadcast_to(T["t"], shp), 1e-13 * sc, f"arith:{op}:t", "", **k)
                        ctx.close(M.cart(out.q), X, T["cond"] * 2.3e-16 * scale, f"arith:{op}:q", "", **k)
                    elif op == "neg":
                        judge(ctx, -a, dict(A, X=-A["X"], t=-np.asarray(A["t"])), "arith:neg", **k)
                        judge(ctx, -(-a), dict(A), "arith:negneg", **k)
                    elif op == "pos":
                        judge(ctx, +a, A, "arith:pos", **k)
                    elif op in ("div", "divarr"):
                        if A["name"].startswith("Prolate"):
                            continue
                        f = float(10 ** rng.uniform(-2, 2)) * G.pick(rng, [1, -1]) if op == "div" else 10 ** rng.uniform(-2, 2, A["tsh"] if A["tsh"] else ())
                        if np.ndim(f) and (A["tsh"] != shp):
                            continue
                        fX = np.asarray(f)[..., None] if np.ndim(f) else f
                        judge(ctx, a / f, dict(A, X=A["X"] / fX, t=A["t"] / f, cond=1e4), f"arith:{op}", **k)
                    elif op == "eq":
                        e = np.asarray(a == a)
                        ctx.check(e.shape == shp and bool(e.all()), "arith:eq:self", f"{e}", **k)
                        import dataclasses
                        z = dataclasses.replace(a, t=a.t + G.quantity(np.abs(np.asarray(A["t"])).max() + 1.0, "Myr"))
                        ctx.check(not np.asarray(a == z).any() and (shp != () or bool(a != z)), "arith:eq:time", f"{a == z}", **k)
                        ctx.close(M.val(z.c, "kpc/Myr"), A["c"], 1e-13 * A["c"], "replace:c", "", **k)
                        if not A["name"].startswith("Prolate"):
                            z = dataclasses.replace(a, q=-a.q)
                            ctx.check(not np.asarray(a == z).any(), "arith:eq:space", f"{a == z}", **k)
                ctx.ev("arith")
                ctx.distinct(op, A["name"], B["name"], A["tsh"], shp)
            ctx.check(repr((a, b)) + str(a) + str(b) == before, "arith:mutated", "operand changed", **k)
    return run


def construct_case(ctx):
    import coordinax as cx, coordinax.ops as co, coordinax.distance as cd
    u = G.U()
    rng = ctx.rng
    F = cx.FourVector
    cdef = O.lightspeed()
    for _ in range(25 if ctx.quick() else 250):
        shp = G.pick(rng, SHAPES)
        w4 = rng.normal(size=shp + (4,)) * 10 ** rng.uniform(-2, 3)
        un = G.pick(rng, G.LENU)
        T = dict(X=w4[..., 1:] * M.factor(un, "kpc"), t=w4[..., 0] * M.factor(un, "kpc") / cdef, c=cdef, shp=shp, cond=10.0)
        k = dict(unit=un, shape=shp)
        for how, fn in (("quantity", lambda: F.from_(G.quantity(w4, un))), ("array", lambda: F.from_(w4, un)), ("self", lambda: F.from_(F.from_(G.quantity(w4, un)))),
                        ("kw", lambda: F(t=G.quantity(T["t"], "Myr"), q=G.quantity(w4[..., 1:], un))),
                        ("pos", lambda: F(G.quantity(T["t"], "Myr"), G.quantity(w4[..., 1:], un))),
                        ("vector", lambda: cx.vector(F, G.quantity(w4, un)) if hasattr(cx, "vector") else F.from_(G.quantity(w4, un))),
                        ("mapping", lambda: F.from_({"t": G.quantity(T["t"], "Myr"), "q": G.quantity(w4[..., 1:], un)}))):
            if how == "mapping":
                continue  # Mapping[str, Quantity] only; q as quantity is converted by the field
            with ctx.scope(f"construct:{how}", **k):
                judge(ctx, fn(), T, f"construct:{how}", **k)
                ctx.ev("construct")
                ctx.distinct("construct", how, un, shp)
        # integers, spatial part in any class kept as given, broadcast times
        name = G.pick(rng, M.POS3)
        with ctx.scope("construct:rep", cls=name):
            w, T2 = mk(rng, name=name)
            judge(ctx, w, T2, "construct:rep", cls=name, tsh=T2["tsh"])
            ctx.check(type(w.q).__name__ == name, "construct:rep:kept", f"{type(w.q)}", cls=name)
            ctx.check(w.t.shape == T2["tsh"], "construct:rep:time-shape", f"{w.t.shape}", want=T2["tsh"])
            judge(ctx, F(t=G.quantity(np.int64(3), "Myr"), q=w.q), dict(T2, t=np.float64(3), c=cdef), "construct:int", cls=name)
            ctx.ev("construct", 2)
        # conversion to a quantity
        with ctx.scope("convert", cls=name, tsh=T2["tsh"]):
            from plum import convert
            q = convert(w, u.Quantity)
            S, St = scales(T2)
            a = np.asarray(q.value) * M.factor(str(q.unit), "kpc")
            ctx.check(a.shape == T2["shp"] + (4,), "convert:shape", f"{a.shape}", cls=name, tsh=T2["tsh"])
            ctx.close(a[..., 0], np.broadcast_to(T2["c"] * T2["t"], T2["shp"]), 1e-13 * St, "convert:ct", "", cls=name, tsh=T2["tsh"])
            ctx.close(a[..., 1:], T2["X"], T2["cond"] * 2.3e-16 * S + 1e-15 * St, "convert:xyz", "", cls=name)
            ctx.ev("convert")
            if not T2["kw"]:
                back = F.from_(q)
                judge(ctx, back, dict(T2, cond=T2["cond"] + 10 * St / S), "convert:roundtrip", cls=name)
                ctx.ev("convert")
        # refusals
        bad = [lambda: F(t=G.quantity(np.zeros(3), "Myr"), q=G.quantity(np.ones(3), "kpc")),
               lambda: F(t=G.quantity(np.zeros((2, 3)), "Myr"), q=G.quantity(np.ones((3, 3)), "kpc")),
               lambda: F(t=G.quantity(np.zeros(2), "Myr"), q=G.quantity(np.ones((3, 3)), "kpc")),
               lambda: F(t=G.quantity(0.0, "kpc"), q=G.quantity(np.ones(3), "kpc")),
               lambda: F(t=G.quantity(0.0, "Myr"), q=G.quantity(np.ones(3), "km/s")),
               lambda: F(t=G.quantity(0.0, "Myr"), q=G.quantity(np.ones(2), "kpc")),
               lambda: F(t=G.quantity(0.0, "Myr"), q=G.vecs().CartesianVel3D.from_(G.quantity(np.ones(3), "km/s"))),
               lambda: F.from_(G.quantity(np.ones(3), "kpc")), lambda: F.from_(G.quantity(np.ones(5), "kpc")), lambda: F.from_(G.quantity(np.ones(4), "km/s")),
               lambda: setattr(w, "t", w.t), lambda: setattr(w, "c", w.c), lambda: setattr(w.q, "x", 1), lambda: w.__setitem__(0, w), lambda: w.no_such_attribute]
        for i, f in enumerate(bad):
            ctx.must_raise(f, f"refused:{i}")
            ctx.ev("refused")


def access_case(ctx):
    """Attributes of the spatial part, introspection and shape operations, class attribute default."""
    import coordinax as cx, jax
    rng = ctx.rng
    for _ in range(20 if ctx.quick() else 300):
        w, T = mk(rng)
        k = dict(cls=T["name"], shape=T["shp"], tsh=T["tsh"])
        with ctx.scope("access", **k):
            for comp in w.q.components:
                a, b = getattr(w, comp), getattr(w.q, comp)
                ctx.check(a is b, f"attribute:{comp}", f"{a} {b}", **k)
                ctx.ev("attribute")
            if T["name"].startswith("Prolate"):
                ctx.check(w.Delta is w.q.Delta, "attribute:Delta", "", **k)
            ctx.check(tuple(w.components) == ("t", "q"), "access:components", f"{w.components}", **k)
            d = w.asdict()
            ctx.check(list(d)[:2] == ["t", "q"] and d["q"] is w.q, "access:asdict", f"{list(d)}", **k)
            ctx.check(w.size == int(np.prod(T["shp"])) and w.ndim == len(T["shp"]), "access:size", f"{w.size} {w.ndim}", **k)
            s = str(w)
            ctx.check(s.startswith("<FourVector (t[") and all(c in s for c in w.q.components), "access:str", s, **k)
        shp = T["shp"]
        full_t = np.broadcast_to(T["t"], shp)
        idx = [lambda a: a[..., :], lambda a: a[None]] + ([lambda a: a[0], lambda a: a[::-1], lambda a: a[-1:]] if shp and shp[0] else [])
        for i, f in enumerate(idx[:1] + idx[2:]):
            with ctx.scope(f"index:{i}", **k):
                if len(T["tsh"]) != len(shp) and i:
                    continue  # time of lower rank is indexed on its own axes (documented limits of broadcasting)
                if T["tsh"] != shp and i:
                    continue
                if not shp:
                    continue
                X = f(np.moveaxis(T["X"], -1, 0)[0])
                o = f(w)
                judge(ctx, o, dict(T, X=np.stack([f(T["X"][..., j]) for j in range(3)], -1), t=f(full_t), shp=np.shape(X)), f"index:{i}", **k)
                ctx.ev("attribute")
        for nm, f in (("flatten", lambda a: a.flatten()), ("reshape", lambda a: a.reshape(-1, 1)), ("ravel", lambda a: a.ravel()), ("T", lambda a: a.T)):
            with ctx.scope(f"shape:{nm}", **k):
                o = f(w)
                judge(ctx, o, dict(T, X=np.stack([f(T["X"][..., j]) for j in range(3)], -1), t=f(full_t) if o.t.shape == f(full_t).shape else T["t"], shp=f(full_t).shape), f"shape:{nm}", **k)
                ctx.ev("attribute")
        with ctx.scope("pytree", **k):
            o = jax.tree.unflatten(*reversed(jax.tree.flatten(w)))
            judge(ctx, o, T, "pytree", **k)
            judge(ctx, jax.jit(lambda x: x)(w), T, "jit-identity", **k)
            ctx.ev("attribute")
        ctx.distinct("access", T["name"], T["shp"], T["tsh"])


def op_case(ctx):
    """Every operator carries c through and acts on t and q together."""
    rng = ctx.rng
    for _ in range(6 if ctx.quick() else 60):
        for mkop in (O.translation, O.boost, O.rotation, O.sttrans, O.galilean, O.identity):
            op = mkop(rng)
            w, T = mk(rng, name=G.pick(rng, [n for n in M.POS3 if not n.startswith("Prolate")]), shp=(sh := G.pick(rng, SHAPES)), tsh=G.pick(rng, [sh, ()]))
            k = dict(op=op.kind, cls=T["name"], shape=T["shp"], tsh=T["tsh"], c=T["c"])
            with ctx.scope(f"operator:{op.kind}", **k):
                for inv in (False, True):
                    X, t, _v = op.apply(T["X"], np.broadcast_to(T["t"], T["shp"]), None, inv)
                    S = sum(op.scale()[:1]) + np.abs(T["X"]).max() + op.scale()[2] * np.abs(T["t"]).max()
                    if np.any(np.sqrt((X ** 2).sum(-1)) < 1e-3 * S):
                        continue
                    out = (op.lib.inverse if inv else op.lib)(w)
                    ctx.check(type(out) is type(w) and type(out.q) is type(w.q) and out.shape == T["shp"], f"operator:{op.kind}:class", f"{type(out)}", **k)
                    ctx.close(M.val(out.c, "kpc/Myr"), T["c"], 1e-13 * T["c"], f"operator:{op.kind}:c", "", inverse=inv, **k)
                    ctx.close(np.broadcast_to(M.val(out.t, "Myr"), T["shp"]), t, 1e-12 * (np.abs(T["t"]).max() + op.scale()[1]), f"operator:{op.kind}:t", "", inverse=inv, **k)
                    ctx.close(M.cart(out.q), X, 1e-11 * S, f"operator:{op.kind}:q", "", inverse=inv, **k)
                    ctx.ev("operator")
                    ctx.distinct("operator", op.kind, T["name"], T["shp"], inv)


def cases(tier):
    return [("norm:%d" % i, norm_case) for i in range(2)] + [("arith:%d" % i, arith_case(i)) for i in range(4)] + [("construct", construct_case), ("access", access_case)] + [("op:%d" % i, op_case) for i in range(3)]


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

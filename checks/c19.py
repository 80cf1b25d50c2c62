"""C19: a Space converts its members together at a common base point and is an immutable mapping keyed by dimension."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import model as M, gen as G, opsmodel as O, runtime as R

PROP = "C19"
RULE = ("a case draws a phase-space point, expresses position, velocity and acceleration each in its own representation and units, and checks the Space's "
        "representation in every target against the member-by-member conversions and the Cartesian model, its round trip, and the mapping and shape "
        "protocol against a dict of the members; distinct = (members and classes, target, dimension, shape)")
ASSUMPTIONS = ["targets are 1-3 dimensional classes that need no extra parameter (prolate spheroidal only as a source)",
               "members share one batch shape where a conversion needs a base point (the single conversions require it too)"]
REQUIRED = {"convert": 60, "member": 100, "roundtrip": 30, "mapping": 100, "index": 60, "refused": 40}
SHAPES = [(), (3,), (2, 3), (2, 1, 2), (1,)]
TARGETS = {1: M.POS1, 2: M.POS2, 3: [n for n in M.POS3 if not n.startswith("Prolate")]}
ALIAS = {"length": ["length"], "speed": ["speed", "velocity"], "acceleration": ["acceleration"]}


def mk(rng, d, shp, with_vel=True, with_acc=True, prolate=True):
    import coordinax as cx
    v = G.vecs()
    pool = [n for n in {1: M.POS1, 2: M.POS2, 3: M.POS3}[d] if prolate or not n.startswith("Prolate")]
    X = O.away(rng, d, shp)
    if d == 1:
        X = np.abs(X)
    D = 0.7
    name = G.pick(rng, pool)
    pos, X, _ = G.make_pos(rng, name, X, D if name.startswith("Prolate") else None, disttype="q")
    parts, T = {"length": pos}, dict(X=X, V=None, A=None, names=[name], shp=shp, D=D if name.startswith("Prolate") else None)
    if with_vel:
        ok = [n for n in pool if n.startswith("Prolate") == name.startswith("Prolate") or not n.startswith("Prolate")]
        vn = G.pick(rng, ok)
        DD = D if vn.startswith("Prolate") else None
        rates, _ = G.rand_rates(rng, vn, X, DD)
        c = M.coords_of(vn, X, DD)
        cos = np.cos(c["lat"]) if vn == "LonLatSphericalPos" and rng.random() < 0.4 else None
        vel, bk = G.make_diff(rng, vn, 1, rates, coslat=cos)
        parts["speed"] = vel
        T["V"] = M.cart_vel(vn, c, bk, DD)
        T["names"].append(type(vel).__name__)
        if with_acc:
            an = G.pick(rng, [n for n in pool if not n.startswith("Prolate")])
            c = M.coords_of(an, X, None)
            rates, _ = G.rand_rates(rng, an, X, None)
            acc, bk = G.make_diff(rng, an, 2, rates)
            parts["acceleration"] = acc
            T["names"].append(type(acc).__name__)
    return parts, T


def build(rng, parts):
    import coordinax as cx
    u = G.U()
    items = list(parts.items())
    if rng.random() < 0.5:
        items = items[::-1]
    named = [(G.pick(rng, ALIAS[k]), v) for k, v in items]
    how = G.pick(rng, ["kw", "map", "dims", "tuples", "mixed"])
    if how == "kw":
        return cx.Space(**dict(named)), how
    if how == "map":
        return cx.Space(dict(named)), how
    if how == "dims":
        return cx.Space({u.dimension(k): v for k, v in named}), how
    if how == "tuples":
        return cx.Space(tuple(named)), how
    return cx.Space({named[0][0]: named[0][1]}, **dict(named[1:])), how


def vals(vec):
    return {k: (np.asarray(getattr(vec, k).value), str(getattr(vec, k).unit)) for k in vec.components}


def samevec(ctx, a, b, tol, mech, **k):
    ctx.check(type(a) is type(b), mech + ":class", f"{type(a)} {type(b)}", **k)
    if type(a) is not type(b):
        return
    x, y = vals(a), vals(b)
    for c in x:
        ctx.check(x[c][1] == y[c][1] and x[c][0].dtype == y[c][0].dtype, mech + ":unit", f"{c}: {x[c][1]} {y[c][1]}", **k)
        ctx.close(x[c][0], y[c][0], tol * (np.abs(y[c][0]).max(initial=0) + 1e-300), mech, c, **k)


def convert_case(d):
    def run(ctx):
        import coordinax as cx, jax
        v = G.vecs()
        rng = ctx.rng
        for it in range(2 if ctx.quick() else 40):
            wv = it == 0 or rng.random() < 0.85
            wa = wv and (it == 0 or rng.random() < 0.5)
            shp = G.deep(rng) if it == 0 else G.pick(rng, SHAPES)
            parts, T = mk(rng, d, shp, wv, wa)
            s, how = build(rng, parts)
            before = repr(s) + str([vals(p) for p in parts.values()])
            S = np.sqrt((T["X"] ** 2).sum(-1)).max()
            with ctx.scope("convert:Space", members=T["names"], shape=shp):
                o = G.pick(rng, [lambda: s.represent_as(cx.Space), lambda: cx.represent_as(s, cx.Space)])()
                ctx.check(type(o) is cx.Space and set(o.keys()) == set(parts), "convert:self", f"{o}", members=T["names"], shape=shp)
                for a in parts:
                    samevec(ctx, o[a], parts[a], 0, "convert:self", members=T["names"], shape=shp)
                ctx.ev("convert")
            for tn in TARGETS[d]:
                tgt = getattr(v, tn)
                k = dict(members=T["names"], how=how, target=tn, shape=shp)
                with ctx.scope(f"convert:{tn}", **k):
                    fn = G.pick(rng, [lambda: s.represent_as(tgt), lambda: cx.represent_as(s, tgt)])
                    o = fn()
                    ctx.check(type(o) is cx.Space and set(o.keys()) == set(parts), "convert:members", f"{list(o.keys())}", **k)
                    ctx.check(o.shape == shp, "convert:shape", f"{o.shape}", **k)
                    samevec(ctx, o["length"], parts["length"].represent_as(tgt), 1e-12, "member:position", **k)
                    ctx.close(M.cart(o["length"]), T["X"], 1e-8 * S if T["D"] else 1e-11 * S, "convert:position", "point", **k)
                    ctx.ev("member")
                    if wv:
                        samevec(ctx, o["speed"], parts["speed"].represent_as(tgt.differential_cls, parts["length"]), 1e-11, "member:velocity", **k)
                        sv = np.abs(T["V"]).max()
                        ctx.close(M.vel_cart(o["speed"], M.cart(o["length"])), T["V"], (1e-7 if T["D"] else 1e-10) * sv, "convert:velocity", "Cartesian velocity", **k)
                        ctx.ev("member")
                    if wa:
                        samevec(ctx, o["acceleration"], parts["acceleration"].represent_as(tgt.differential_cls.differential_cls, parts["speed"], parts["length"]), 1e-10,
                                "member:acceleration", **k)
                        ctx.ev("member")
                    ctx.ev("convert")
                    ctx.distinct("convert", tuple(T["names"]), tn, shp)
                    # round trip through the original position class
                    if not T["D"]:
                        b = o.represent_as(type(parts["length"]))
                        ctx.close(M.cart(b["length"]), T["X"], 1e-10 * S, "roundtrip:position", "point", **k)
                        if wv:
                            ctx.close(M.vel_cart(b["speed"], M.cart(b["length"])), T["V"], 1e-9 * sv, "roundtrip:velocity", "velocity", **k)
                            # member-wise return: the velocity given in the class of the position comes back component by component
                            if type(b["speed"]) is type(parts["speed"]):
                                for c in b["speed"].components:
                                    q0, q1 = getattr(parts["speed"], c), getattr(b["speed"], c)
                                    w = np.asarray(q0.value)
                                    ctx.close(np.asarray(q1.value) * M.factor(str(q1.unit), str(q0.unit)), w, 1e-8 * np.abs(w).max(), "roundtrip:component", c, **k)
                        if wa and type(b["acceleration"]) is type(parts["acceleration"]):
                            for c in b["acceleration"].components:
                                q0, q1 = getattr(parts["acceleration"], c), getattr(b["acceleration"], c)
                                w = np.asarray(q0.value)
                                ctx.close(np.asarray(q1.value) * M.factor(str(q1.unit), str(q0.unit)), w, 1e-7 * np.abs(w).max(), "roundtrip:acceleration", c, **k)
                        ctx.ev("roundtrip")
                if it == 0 and rng.random() < 0.3:
                    with ctx.scope(f"jit:{tn}", **k):
                        j = jax.jit(lambda z: z.represent_as(tgt))(s)
                        for key in parts:
                            samevec(ctx, j[key], o[key], 1e-11, f"jit:{key}", **k)
            ctx.check(repr(s) + str([vals(p) for p in parts.values()]) == before, "convert:mutated", "operand changed", members=T["names"])
            ctx.sample(members=T["names"], X=T["X"].tolist(), how=how)
    return run


def mapping_case(ctx):
    import coordinax as cx
    from dataclassish import field_items, field_keys, field_values, replace
    u = G.U()
    rng = ctx.rng
    for _ in range(25 if ctx.quick() else 250):
        d = G.pick(rng, [1, 2, 3, 3])
        shp = G.pick(rng, SHAPES)
        parts, T = mk(rng, d, shp, rng.random() < 0.8, rng.random() < 0.6)
        s, how = build(rng, parts)
        k = dict(members=list(parts), how=how, shape=shp)
        with ctx.scope("mapping", **k):
            ctx.check(set(s.keys()) == set(parts) and set(iter(s)) == set(parts), "mapping:keys", f"{list(s)}", **k)
            for key, val in parts.items():
                for a in ALIAS[key]:
                    for kk in (a, u.dimension(a)):
                        ctx.check(s[kk] is val, "mapping:getitem", f"{kk!r}", **k)
                        ctx.check(kk in s, "mapping:contains", f"{kk!r}", **k)
                        ctx.check(s.get(kk) is val, "mapping:get", f"{kk!r}", **k)
                        ctx.ev("mapping")
            for kk in ("mass", u.dimension("mass"), "nonsense", *(x for x in ALIAS if x not in parts)):
                ctx.must_raise(lambda: s[kk], "mapping:missing", KeyError, msg=repr(kk))
                ctx.check(kk not in s and s.get(kk) is None and s.get(kk, 7) == 7, "mapping:missing-get", f"{kk!r}", **k)
                ctx.ev("refused")
            ctx.check(dict(s.items()) == {**dict(s.items())} and all(s[a] is b for a, b in s.items()) and all(any(x is b for b in parts.values()) for x in s.values()), "mapping:items", "", **k)
            ctx.check({a: id(b) for a, b in field_items(s)} == {a: id(b) for a, b in parts.items()} and set(field_keys(s)) == set(parts) and len(list(field_values(s))) == len(parts), "mapping:fields", "", **k)
            ctx.check({a: id(b) for a, b in s.asdict().items()} == {a: id(b) for a, b in parts.items()}, "mapping:asdict", "", **k)
            s.asdict().clear()
            ctx.check(set(s.keys()) == set(parts), "mapping:asdict-aliases-data", "", **k)
            ctx.check(dict(s.shapes) == {a: b.shape for a, b in parts.items()} and dict(s.sizes) == {a: b.size for a, b in parts.items()}, "mapping:shapes", "", **k)
            ctx.check(set(s.dtypes) == set(parts) and dict(s.dtypes["length"]) == dict(parts["length"].dtypes), "mapping:dtypes", "", **k)
            ctx.check(cx.Space.from_(s) is s, "mapping:from-self", "", **k)
            f = cx.Space.from_(parts["length"])
            ctx.check(list(f) == ["length"] and f["length"] is parts["length"], "mapping:from-position", "", **k)
            for a in ALIAS["speed"] if "speed" in parts else []:
                r = replace(s, **{a: -parts["speed"]})
                samevec(ctx, r["speed"], -parts["speed"], 0, "mapping:replace", **k)
                ctx.check(set(r.keys()) == set(parts) and r["length"] is parts["length"] and s["speed"] is parts["speed"], "mapping:replace-others", "", **k)
            ctx.ev("mapping", 5)
            for fn in (lambda: s.__setitem__("length", parts["length"]), lambda: setattr(s, "_data", {}), lambda: s.__delitem__("length"), lambda: setattr(s, "length", 1)):
                ctx.must_raise(fn, "mapping:immutable")
                ctx.ev("refused")
            if shp in ((3,), (2, 3), (2, 1, 2)) and len(parts) > 1:
                bad = dict(parts, length=cx.CartesianPos3D.from_(G.quantity(np.ones((7, 3)), "kpc")))
                ctx.must_raise(lambda: cx.Space(**bad), "mapping:shape-mismatch")
                ctx.ev("refused")
            ctx.must_raise(lambda: cx.Space(nonsense=parts["length"]), "mapping:unknown-key")
            # one dimension, two vectors: nothing says which one is meant
            other = -parts["length"] if d > 1 and not T["names"][0].startswith("Prolate") else parts["length"]
            twice = [lambda: cx.Space({"length": parts["length"], u.dimension("length"): other}), lambda: cx.Space({u.dimension("length"): other}, length=parts["length"]),
                     lambda: cx.Space((("length", parts["length"]), (u.dimension("length"), other)))]
            if "speed" in parts:
                twice += [lambda: cx.Space(speed=parts["speed"], velocity=-parts["speed"]), lambda: cx.Space({"velocity": parts["speed"], "speed": parts["speed"]}, length=parts["length"])]
            for fn in twice:
                ctx.must_raise(fn, "mapping:duplicate-dimension")
                ctx.ev("refused")
            if "speed" in parts:
                ctx.must_raise(lambda: cx.Space(speed=parts["speed"]).represent_as(cx.SphericalPos), "convert:no-position")
                ctx.ev("refused", 2)
        ctx.distinct("mapping", how, tuple(parts), d, shp)


def index_case(ctx):
    import coordinax as cx
    rng = ctx.rng
    IDX = {(): [("...", np.s_[...])], (3,): [("0", 0), ("-1", -1), ("slice", np.s_[1:]), ("step", np.s_[::-2]), ("none", np.s_[None]), ("mask", np.array([True, False, True])), ("array", np.array([2, 0, 0, 1]))],
           (2, 3): [("0", 0), ("tuple", (1, 2)), ("slice", np.s_[:, 1:]), ("ellipsis", np.s_[..., 0]), ("none", np.s_[:, None])], (1,): [("0", 0), ("slice", np.s_[:1])],
           (2, 1, 2): [("0", 0), ("tuple", (1, 0)), ("slice", np.s_[:, :, 1:]), ("ellipsis", np.s_[..., 1]), ("mid", np.s_[:, 0])]}
    for _ in range(12 if ctx.quick() else 200):
        d = G.pick(rng, [1, 2, 3, 3])
        shp = G.pick(rng, SHAPES)
        parts, T = mk(rng, d, shp, rng.random() < 0.8, rng.random() < 0.6)
        s, how = build(rng, parts)
        k = dict(members=T["names"], shape=shp)
        ops = [("index:" + n, (lambda i: lambda a: a[i])(i)) for n, i in IDX[shp]]
        ops += [("T", lambda a: a.T), ("flatten", lambda a: a.flatten()), ("ravel", lambda a: a.ravel()), ("reshape", lambda a: a.reshape(-1, 1)), ("reshape2", lambda a: a.reshape(1, *shp))]
        if len(shp) >= 2:
            ops.append(("mT", lambda a: a.mT))
        for nm, f in ops:
            with ctx.scope(f"shape:{nm}", **k):
                o = f(s)
                ctx.check(type(o) is cx.Space and set(o.keys()) == set(parts), f"shape:{nm}:keys", f"{type(o)}", **k)
                for key, p in parts.items():
                    samevec(ctx, o[key], f(p), 0, f"shape:{nm}:{key}", **k)
                    for c, (arr, un) in vals(o[key]).items():  # and against numpy itself
                        ref = np.broadcast_to(np.asarray(getattr(p, c).value), shp)
                        ref = ref.reshape(-1) if nm in ("flatten", "ravel") else np.swapaxes(ref, -1, -2) if nm == "mT" else f(ref)
                        ctx.check(arr.shape == ref.shape and bool(np.array_equal(arr, ref)), f"shape:{nm}:{key}:values", f"{c} {arr.shape} {ref.shape}", **k)
                ctx.check(o.shape == np.broadcast_shapes(*(x.shape for x in o.values())), f"shape:{nm}:shape", f"{o.shape}", **k)
                ctx.ev("index")
                ctx.distinct(nm, tuple(parts), d, shp)
        with ctx.scope("shape:broadcast", **k):
            ctx.check(s.shape == shp and s.ndim == len(shp) and s.size == int(np.prod(shp)), "shape:self", f"{s.shape} {s.ndim} {s.size}", **k)
            one = cx.Space(length=cx.CartesianPos3D.from_(G.quantity(np.ones(G.pick(rng, [(3,), (1, 3), shp + (3,)])), "kpc")),
                           speed=cx.CartesianVel3D.from_(G.quantity(np.ones(shp + (3,)), "km/s")))
            want = np.broadcast_shapes(one["length"].shape, shp)
            own = {a: tuple(b.shape) for a, b in one.items()}
            ctx.check({a: tuple(b) for a, b in one.shapes.items()} == own and dict(one.sizes) == {a: int(np.prod(b)) for a, b in own.items()},
                      "shape:broadcast:members", f"{one.shapes} {one.sizes}", **k)
            ctx.check(one.shape == want and one.ndim == len(want) and one.size == int(np.prod(want)), "shape:broadcast", f"{one.shape} {want}", **k)
            ctx.ev("index")
            # the members' shapes differ: every shape operation acts on the broadcast members, so that the points stay paired
            inner = shp[int(rng.integers(0, len(shp) + 1)):] if rng.random() < 0.6 else tuple(1 if rng.random() < 0.5 else n for n in shp)
            shapes = [inner, shp] if rng.random() < 0.5 else [shp, inner]
            raw = {"length": rng.normal(size=shapes[0] + (3,)), "speed": rng.normal(size=shapes[1] + (3,))}
            mixed = cx.Space(length=cx.CartesianPos3D.from_(G.quantity(raw["length"], "kpc")), speed=cx.CartesianVel3D.from_(G.quantity(raw["speed"], "km/s")))
            full = {a: np.broadcast_to(b, shp + (3,)) for a, b in raw.items()}
            for nm, f in ops:
                with ctx.scope(f"shape:mixed:{nm}", shapes=shapes):
                    o = f(mixed)
                    for key, arr in full.items():
                        got = np.stack([np.asarray(getattr(o[key], c).value) for c in o[key].components], -1)
                        ref = np.stack([arr[..., j].reshape(-1) if nm in ("flatten", "ravel") else np.swapaxes(arr[..., j], -1, -2) if nm == "mT" else f(arr[..., j])
                                        for j in range(3)], -1)
                        ctx.check(got.shape == ref.shape and bool(np.array_equal(got, ref)), f"shape:mixed:{nm}", f"{key} {got.shape} want {ref.shape}", shapes=shapes)
                    ctx.ev("index")
                    ctx.distinct("mixed", nm, tuple(shapes))
        if not any(n.startswith(("Prolate", "Radial")) for n in T["names"]) and d > 1:
            with ctx.scope("neg", **k):
                o = -s
                ctx.check(type(o) is cx.Space and set(o.keys()) == set(parts), "neg:keys", "", **k)
                for key, p in parts.items():
                    samevec(ctx, o[key], -p, 0, f"neg:{key}", **k)
                ctx.close(M.cart(o["length"]), -T["X"], 1e-11 * np.abs(T["X"]).max(), "neg:position", "", **k)
                if "speed" in parts:
                    for c in parts["speed"].components:
                        a, b = np.asarray(getattr(o["speed"], c).value), np.asarray(getattr(parts["speed"], c).value)
                        ctx.check(bool(np.array_equal(a, -b)), "neg:velocity", f"{c}", **k)
                ctx.ev("index")


def cases(tier):
    return [(f"convert:3:{i}", convert_case(3)) for i in range(6)] + [(f"convert:{d}:{i}", convert_case(d)) for d in (1, 2) for i in range(2)] + [("mapping", mapping_case)] + \
        [(f"index:{i}", index_case) for i in range(2)]


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

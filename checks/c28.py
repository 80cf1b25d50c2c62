"""C28: vector families are coherent; every same-dimension conversion exists, is unambiguous and hits the exact class."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import dataclasses
import itertools
import warnings
import numpy as np
from mon import model as M, gen as G, runtime as R, build as B, programs as P

PROP = "C28"
RULE = ("a case reads the class table of one vector class (integral, differential and Cartesian class, components, dimension, through class and "
        "instance) and compares it with a table written down independently and with the algebraic laws, or executes every ordered conversion "
        "pair from one class (positions, velocities, accelerations, several position classes, scalar and batched, all call forms) and checks "
        "that it resolves, returns exactly the requested class with finite components, and is the identity on the own class; user-defined "
        "position classes with conversions to and from Cartesian join the table; distinct = (source, target, position class, shape)")
ASSUMPTIONS = ["position, velocity and acceleration classes of one family share a stem (XPos, XVel, XAcc)",
               "RadialPos cannot hold negative CartesianPos1D values, so those conversions use positive values",
               "converting a prolate velocity or acceleration needs Delta"]
REQUIRED = {"class": 30, "pos-pair": 45, "vel-pair": 50, "acc-pair": 40, "identity": 30, "export": 50, "user-class": 20}
ATTRS = ("integral_cls", "differential_cls")


def vclasses():
    """Concrete exported vector classes with their order (0 position, 1 velocity, 2 acceleration, None other)."""
    import coordinax as cx
    v = cx.vecs
    out = {}
    for n in sorted(set(v.__all__) | set(dir(v))):
        c = getattr(v, n, None)
        if isinstance(c, type) and issubclass(c, v.AbstractVector) and not n.startswith("Abstract"):
            out[n] = (c, 0 if issubclass(c, v.AbstractPos) else 1 if issubclass(c, v.AbstractVel) else 2 if issubclass(c, v.AbstractAcc) else None)
    return out


def stem(n):
    for s in ("Pos", "Vel", "Acc"):
        if s in n:
            i = n.rindex(s)
            return n[:i] + n[i + 3:]
    return n


def dim_of(c):
    """Dimension by base class."""
    v = G.vecs()
    for d in ("1D", "2D", "3D", "ND", "4D"):
        for o in ("Pos", "Vel", "Acc"):
            b = getattr(v, f"Abstract{o}{d}", None)
            if b is not None and issubclass(c, b):
                return d
    return None


def class_case(name):
    def run(ctx):
        v = G.vecs()
        cl = vclasses()
        if name not in cl:
            ctx.violation(f"export:{name}", "class is no longer exported by coordinax.vecs")
            return
        c, order = cl[name]
        ctx.ev("class")
        ctx.distinct("class", name)
        w = dict(cls=name)
        if name == "Space":
            return
        fields = [f.name for f in dataclasses.fields(c)]
        comps = tuple(c.components)
        if name in B.FIELDS:
            want = tuple(k for k, _ in B.FIELDS[name][1])
            ctx.check(comps == want, f"components:{name}", f"{comps} != {want}", **w)
        ctx.check(all(k in fields for k in comps), f"components:{name}", f"components {comps} are not fields {fields}", **w)
        ctx.check([k for k in fields if k in comps] == list(comps), f"components:{name}", "components out of field order", **w)
        if order is None or name in ("FourVector", "PoincarePolarVector", "CartesianGeneric3D"):
            return
        pre = {0: "", 1: "d_", 2: "d2_"}
        ctx.check(all(k.startswith(pre[order]) for k in comps), f"prefix:{name}", f"{comps}", **w)
        d = dim_of(c)
        if d in ("1D", "2D", "3D"):
            ctx.check(len(comps) == int(d[0]), f"dimension:{name}", f"{len(comps)} components in a {d} class", **w)
        inst = make(ctx, name, ())
        with ctx.scope(f"class:{name}", **w):
            ctx.check(tuple(inst.components) == comps, f"components:{name}:instance", f"{inst.components}", **w)
            if name in B.DIM:
                ctx.check(inst._dimensionality() == B.DIM[name] if hasattr(inst, "_dimensionality") else True, f"dimension:{name}", "", **w)
            car = c._cartesian_cls
            ctx.check(car._cartesian_cls is car, f"cartesian:{name}", f"the Cartesian class of {car} is {car._cartesian_cls}", **w)
            ctx.check(dim_of(car) == d, f"cartesian:{name}", f"{car} has another dimension", **w)
            ctx.check(car.__name__.startswith("Cartesian") and cl[car.__name__][1] == order, f"cartesian:{name}", f"{car}", **w)
            ctx.check(inst._cartesian_cls is car, f"cartesian:{name}:instance", "", **w)
        chain = {0: [("differential_cls", 1, "integral_cls")], 1: [("integral_cls", 0, "differential_cls"), ("differential_cls", 2, "integral_cls")],
                 2: [("integral_cls", 1, "differential_cls")]}[order]
        for attr, o2, back in chain:
            with ctx.scope(f"{attr}:{name}", **w):
                o = getattr(c, attr)
                ctx.check(isinstance(o, type) and issubclass(o, (v.AbstractPos, v.AbstractVel, v.AbstractAcc)[o2]), f"{attr}:{name}", f"{o}", **w)
                ctx.check(o.__name__ in cl and cl[o.__name__][0] is o, f"{attr}:{name}", f"{o} is not exported", **w)
                ctx.check(getattr(inst, attr) is o, f"{attr}:{name}:instance", f"{getattr(inst, attr)}", **w)
                ctx.check(dim_of(o) == d, f"{attr}:{name}", f"dimension {dim_of(o)} != {d}", **w)
                if name == "LonCosLatSphericalVel":  # the second velocity class of its family
                    want = {"integral_cls": "LonLatSphericalPos", "differential_cls": "LonLatSphericalAcc"}[attr]
                    ctx.check(o.__name__ == want, f"{attr}:{name}", f"{o}", **w)
                else:
                    ctx.check(stem(o.__name__) == stem(name), f"{attr}:{name}", f"{o.__name__} is of another family", **w)
                    ctx.check(getattr(o, back) is c, f"{attr}:{name}:back", f"{back} of {o.__name__} is {getattr(o, back)}", **w)
                    base = [k[len(pre[order]):] for k in comps]
                    ctx.check([k[len(pre[o2]):] for k in o.components] == base, f"names:{name}", f"{o.components} against {comps}", **w)
                ctx.check(stem(o._cartesian_cls.__name__) == stem(c._cartesian_cls.__name__), f"cartesian:{name}:chain", f"{o._cartesian_cls}", **w)
    return run


def make(ctx, name, shp, D=None):
    u, v = G.U(), G.vecs()
    if name in B.ND:
        f, o = B.ND[name]
        return getattr(v, name)(u.Quantity(ctx.rng.normal(size=shp + (4,)), ["kpc", "kpc/Myr", "kpc/Myr2"][o]))
    vals = B.sane(ctx.rng, name, shp)
    if name == "CartesianPos1D":
        vals = {k: np.abs(x) for k, x in vals.items()}
    return B.build(name, vals, {k: B.unit_of(name, k) for k in vals})


def finite(x):
    return all(np.all(np.isfinite(np.asarray(getattr(x, k).value))) for k in x.components)


def equal_bits(a, b):
    pa, pb = P.phys(a), P.phys(b)
    return set(pa) == set(pb) and all(pa[k][0] == pb[k][0] and np.array_equal(pa[k][1], pb[k][1]) for k in pa) and P.units(a) == P.units(b)


def attempt(ctx, mech, fn, **w):
    """A conversion that must resolve; endless recursion, ambiguity and missing methods are told apart."""
    try:
        return fn()
    except RecursionError:
        ctx.violation(f"recursion:{mech}", "endless recursion", **w)
    except Exception as e:  # noqa: BLE001
        n = type(e).__name__
        kind = "ambiguous" if "Ambiguous" in n else "no-method" if "NotFound" in n else "raised"
        ctx.violation(f"{kind}:{mech}", f"{n}: {str(e)[:200]}", **w)
    return None


def group(names):
    g = {}
    c = vclasses()
    for n in names:
        if n in c:
            g.setdefault(dim_of(c[n][0]), []).append(n)
    return g


def by_order(o):
    return group([n for n, (c, k) in vclasses().items() if k == o and n not in ("FourVector",) and n in {**B.FIELDS, **B.ND}])


def shapes(ctx):
    return [(), (2,)] if ctx.quick() else [(), (2,), (2, 3), (0,), (1, 1)]


def kw_for(*names):
    u = G.U()
    return {"Delta": u.Quantity(0.3, "kpc")} if any("Prolate" in n for n in names) else {}


def pos_case(A):
    def run(ctx):
        import coordinax as cx
        v = G.vecs()
        d = dim_of(getattr(v, A))
        for Bn in by_order(0)[d]:
            T = getattr(v, Bn)
            for shp in shapes(ctx):
                x = make(ctx, A, shp)
                mech, w = f"{A}->{Bn}", dict(shape=shp)
                kw = kw_for(Bn) if not (A == Bn) else {}
                forms = {"method": lambda: x.represent_as(T, **kw), "function": lambda: cx.represent_as(x, T, **kw), "vecs": lambda: v.represent_as(x, T, **kw)}
                for fname, f in forms.items():
                    y = attempt(ctx, mech, f, form=fname, **w)
                    if y is None:
                        break
                    ctx.ev("pos-pair")
                    ctx.distinct(A, Bn, shp)
                    ctx.check(type(y) is T, f"class:{mech}", f"got {type(y).__name__}", form=fname, **w)
                    ctx.check(y.shape == x.shape, f"shape:{mech}", f"{y.shape} != {x.shape}", **w)
                    ctx.check(finite(y), f"finite:{mech}", f"{y}", **w)
                    if A == Bn:
                        ctx.ev("identity")
                        ctx.check(equal_bits(x, y), f"identity:{mech}", f"{x} -> {y}", **w)
            if A == Bn:
                x = make(ctx, A, (2,))
                with ctx.scope(f"from_:{A}"):
                    ctx.check(equal_bits(T.from_(x), x), f"identity:from_:{A}", "from_ of an instance changed it")
                    ctx.ev("identity")
    return run


def where_positions(ctx, d, A):
    """Position classes at which the velocity may be given."""
    ps = [p for p in by_order(0)[d] if p != "TwoSpherePos"]
    if A.startswith("TwoSphere"):
        return ["TwoSpherePos"]
    if d in ("1D", "ND"):
        return ps
    if ctx.quick():
        own = M.posname(A)
        return [own, ps[int(ctx.rng.integers(len(ps)))]]
    return ps


def vel_case(A):
    def run(ctx):
        import coordinax as cx
        v = G.vecs()
        d = dim_of(getattr(v, A))
        for Bn in by_order(1)[d]:
            T = getattr(v, Bn)
            for pn in dict.fromkeys(where_positions(ctx, d, A)):
                for shp in shapes(ctx)[: 1 if ctx.quick() else 2]:
                    if d == "ND" and len(shp):
                        pass
                    q, p = make(ctx, pn, shp), make(ctx, A, shp)
                    kw = kw_for(A, Bn, pn)
                    mech, w = f"{A}->{Bn}", dict(position=pn, shape=shp)
                    y = attempt(ctx, mech, lambda: p.represent_as(T, q, **kw), **w)
                    if y is None:
                        continue
                    ctx.ev("vel-pair")
                    ctx.distinct(A, Bn, pn, shp)
                    ctx.check(type(y) is T, f"class:{mech}", f"got {type(y).__name__}", **w)
                    ctx.check(y.shape == p.shape, f"shape:{mech}", f"{y.shape} != {p.shape}", **w)
                    ctx.check(finite(y), f"finite:{mech}", f"{y}", **w)
                    if A == Bn:
                        ctx.ev("identity")
                        ctx.check(equal_bits(p, y), f"identity:{mech}", f"{p} -> {y}", **w)
        if A.startswith("Cartesian"):
            p = make(ctx, A, (2,))
            y = attempt(ctx, f"{A}->{A}:no-position", lambda: p.represent_as(getattr(v, A)))
            ctx.check(y is not None and equal_bits(p, y), f"identity:{A}:no-position", "")
    return run


def acc_case(A):
    def run(ctx):
        v = G.vecs()
        d = dim_of(getattr(v, A))
        for Bn in by_order(2)[d]:
            T = getattr(v, Bn)
            for pn in dict.fromkeys(where_positions(ctx, d, A)[: 1 if ctx.quick() else None]):
                for shp in shapes(ctx)[:1 if ctx.quick() else 2]:
                    vn = M.velname(pn) if not pn.endswith("ND") else "CartesianVelND"
                    if pn == "TwoSpherePos":
                        vn = "TwoSphereVel"
                    q, p, a = make(ctx, pn, shp), make(ctx, vn, shp), make(ctx, A, shp)
                    kw = kw_for(A, Bn, pn)
                    mech, w = f"{A}->{Bn}", dict(position=pn, shape=shp)
                    y = attempt(ctx, mech, lambda: a.represent_as(T, p, q, **kw), **w)
                    if y is None:
                        continue
                    ctx.ev("acc-pair")
                    ctx.distinct(A, Bn, pn, shp)
                    ctx.check(type(y) is T, f"class:{mech}", f"got {type(y).__name__}", **w)
                    ctx.check(y.shape == a.shape, f"shape:{mech}", f"{y.shape} != {a.shape}", **w)
                    ctx.check(finite(y), f"finite:{mech}", f"{y}", **w)
                    if A == Bn:
                        ctx.ev("identity")
                        pa, pb = P.phys(a), P.phys(y)
                        ctx.check(set(pa) == set(pb), f"identity:{mech}", "")
                        for k in pa:
                            ctx.close(pb[k][1], pa[k][1], 1e-12 * np.max(np.abs(pa[k][1]), initial=0.0), f"identity:{mech}", k, **w)
    return run


def exports(ctx):
    """Names promised by __all__ exist, are what they claim, and are shared between the public modules."""
    import importlib
    for m in ("coordinax", "coordinax.vecs", "coordinax.ops", "coordinax.frames", "coordinax.angle", "coordinax.distance"):
        with ctx.scope(f"export:{m}"):
            mod = importlib.import_module(m)
            names = mod.__all__
            ctx.check(len(set(names)) == len(names), f"export:{m}:duplicates", f"{[n for n in names if names.count(n) > 1]}")
            ns = {}
            exec(f"from {m} import *", ns)
            for n in names:
                ctx.ev("export")
                ctx.check(hasattr(mod, n) and n in ns, f"export:{m}", f"{n} missing")
                ctx.distinct("export", m, n)
    import coordinax as cx
    for n in cx.__all__:
        if hasattr(cx.vecs, n) and not n.startswith("_") and isinstance(getattr(cx, n), type):
            ctx.check(getattr(cx, n) is getattr(cx.vecs, n), "export:same", f"{n} differs between coordinax and coordinax.vecs")
    v = cx.vecs
    cl = vclasses()
    known = set(B.FIELDS) | set(B.ND) | {"FourVector", "PoincarePolarVector", "CartesianGeneric3D"}
    # the table is closed under integral and differential
    for n, (c, o) in cl.items():
        if o is None or n in ("FourVector", "PoincarePolarVector"):
            continue
        for a in {0: ["differential_cls"], 1: ["differential_cls", "integral_cls"], 2: ["integral_cls"]}[o]:
            with ctx.scope(f"closed:{n}"):
                ctx.check(getattr(c, a).__name__ in cl, f"closed:{n}", f"{a} = {getattr(c, a)} is not exported")
        ctx.ev("class")
    for n in known:
        ctx.check(n in cl, f"export:{n}", "not exported any more")
    for n, (c, o) in cl.items():
        ctx.check(o is None or n in known or dim_of(c) is not None, f"dimension:{n}", "no dimension")
    # an acceleration has no differential; a position no integral
    for n, (c, o) in cl.items():
        if o == 2:
            ctx.must_raise(lambda: c.differential_cls, f"differential:{n}", msg="differential class of an acceleration")
        if o == 0:
            ctx.must_raise(lambda: c.integral_cls, f"integral:{n}", msg="integral class of a position")


def user_case(ctx):
    """A position class defined by the user, with conversions to and from Cartesian, converts to every class."""
    import coordinax as cx
    import equinox as eqx
    import jax
    import quaxed.numpy as jnp
    import unxt as u
    from functools import partial
    from plum import dispatch
    v = cx.vecs

    def qf():
        return eqx.field(converter=partial(u.Quantity.from_, dtype=float))

    class classproperty:  # the class attribute is the value computed on the class
        def __init__(self, f):
            self.f = getattr(f, "__func__", f)

        def __get__(self, obj, cls=None):
            return self.f(cls if cls is not None else type(obj))


    class TiltedPos(v.AbstractPos3D):
        """Cartesian axes in other proportions: a = 2 y, b = z - x, c = x / 3."""
        a: u.Quantity = qf()
        b: u.Quantity = qf()
        c: u.Quantity = qf()

        @classproperty
        @classmethod
        def differential_cls(cls):
            return TiltedVel

    class TiltedVel(v.AbstractVel3D):
        d_a: u.Quantity = qf()
        d_b: u.Quantity = qf()
        d_c: u.Quantity = qf()

        @classproperty
        @classmethod
        def integral_cls(cls):
            return TiltedPos

        @classproperty
        @classmethod
        def differential_cls(cls):
            raise NotImplementedError

    from coordinax import represent_as as func

    def to_cart(current, target, /, **kwargs):
        x = current.c * 3
        return v.CartesianPos3D(x=x, y=current.a / 2, z=current.b + x)

    def from_cart(current, target, /, **kwargs):
        return TiltedPos(a=current.y * 2, b=current.z - current.x, c=current.x / 3)

    to_cart.__annotations__ = {"current": TiltedPos, "target": type[v.CartesianPos3D], "return": v.CartesianPos3D}
    from_cart.__annotations__ = {"current": v.CartesianPos3D, "target": type[TiltedPos], "return": TiltedPos}
    same = lambda current, target, /, **kwargs: current
    same.__annotations__ = {"current": TiltedPos, "target": type[TiltedPos], "return": TiltedPos}
    for f in (to_cart, from_cart, same):
        func.dispatch(f)

    for rep in range(3 if ctx.quick() else 30):
        shp = G.pick(ctx.rng, [(), (3,), (2, 2)])
        X = P.point(ctx.rng, 3, shp)
        lu = G.pick(ctx.rng, ["kpc", "pc"])
        f = M.factor("kpc", lu)
        t = TiltedPos(a=u.Quantity(2 * X[..., 1] * f, lu), b=u.Quantity((X[..., 2] - X[..., 0]) * f, lu), c=u.Quantity(X[..., 0] / 3 * f, lu))
        V = ctx.rng.normal(size=shp + (3,))
        tv = TiltedVel(d_a=u.Quantity(2 * V[..., 1], "kpc/Myr"), d_b=u.Quantity(V[..., 2] - V[..., 0], "kpc/Myr"), d_c=u.Quantity(V[..., 0] / 3, "kpc/Myr"))
        tol = 1e-9 * np.max(np.abs(X))
        for n in M.POS3:
            kw = kw_for(n)
            y = attempt(ctx, f"user->{n}", lambda: t.represent_as(getattr(v, n), **kw), shape=shp)
            if y is not None:
                ctx.ev("user-class")
                ctx.distinct("user", n, shp)
                ctx.check(type(y) is getattr(v, n), f"class:user->{n}", f"{type(y)}")
                ctx.close(M.cart(y), X, tol if "Pro" not in n else 1e-6 * np.max(np.abs(X)), f"user->{n}", "point")
                z = attempt(ctx, f"{n}->user", lambda: y.represent_as(TiltedPos), shape=shp)
                if z is not None:
                    ctx.check(type(z) is TiltedPos, f"class:{n}->user", f"{type(z)}")
                    got = np.stack([M.val(z.c, "kpc") * 3, M.val(z.a, "kpc") / 2, M.val(z.b, "kpc") + M.val(z.c, "kpc") * 3], -1)
                    ctx.close(got, X, (tol if "Pro" not in n else 1e-6 * np.max(np.abs(X))) * 6, f"{n}->user", "point")
            if "Pro" in n:
                continue
            vn = M.velname(n)
            p = attempt(ctx, f"uservel->{vn}", lambda: tv.represent_as(getattr(v, vn), t), shape=shp)
            if p is not None:
                ctx.ev("user-class")
                ctx.check(type(p) is getattr(v, vn), f"class:uservel->{vn}", f"{type(p)}")
                ctx.close(M.vel_cart(p, X), V, 1e-8 * np.max(np.abs(V)) + 1e-9, f"uservel->{vn}", "velocity")
                b = attempt(ctx, f"{vn}->uservel", lambda: p.represent_as(TiltedVel, t), shape=shp)
                if b is not None:
                    got = np.stack([M.val(b.d_c, "kpc/Myr") * 3, M.val(b.d_a, "kpc/Myr") / 2, M.val(b.d_b, "kpc/Myr") + M.val(b.d_c, "kpc/Myr") * 3], -1)
                    ctx.close(got, V, 1e-7 * np.max(np.abs(V)) + 1e-9, f"{vn}->uservel", "velocity")
        with ctx.scope("user:arithmetic", shape=shp):
            s = t + v.CartesianPos3D.from_(u.Quantity(np.ones(shp + (3,)), "kpc"))
            ctx.close(M.cart(s if type(s) is v.CartesianPos3D else s.represent_as(v.CartesianPos3D)), X + 1, tol + 1e-9, "user:add", "")
            ctx.close(M.val(t.norm(), "kpc"), np.sqrt((X**2).sum(-1)), tol, "user:norm", "")
            sp = cx.Space(length=t, speed=tv).represent_as(v.SphericalPos)
            ctx.check(type(sp["length"]) is v.SphericalPos and type(sp["speed"]) is v.SphericalVel, "user:space", f"{sp}")
            ctx.ev("user-class")


def cases(tier):
    import coordinax  # noqa: F401
    cl = vclasses()
    names = sorted(set(cl) | set(B.FIELDS) | set(B.ND))
    out = [("exports", exports), ("user", user_case)]
    out += [(f"acc:{n}", acc_case(n)) for g in by_order(2).values() for n in g]
    out += [(f"vel:{n}", vel_case(n)) for g in by_order(1).values() for n in g]
    out += [(f"pos:{n}", pos_case(n)) for g in by_order(0).values() for n in g]
    out += [(f"class:{n}", class_case(n)) for n in names]
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

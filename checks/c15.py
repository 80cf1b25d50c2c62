"""C15: Angle objects behave as physical angles in arithmetic and trigonometry."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import model as M, gen as G, runtime as R
from mon.qarith import compare, ref_of, plain

PROP = "C15"
RULE = ("a case draws angles over twelve decades and both signs in random angular units and batch shapes and evaluates every arithmetic and "
        "trigonometric operation on Angle objects (against Angles, angular quantities, other quantities and plain numbers, on either side, eager "
        "and jitted), comparing value and unit with astropy and the result type with the dimension rule; distinct = (operation, operand, side, unit)")
ASSUMPTIONS = ["trigonometric functions are sin, cos and tan; hyperbolic functions and the product reduction are not defined for an Angle",
               "at most ~1e6 rad in trigonometric arguments (argument reduction differs between math libraries beyond)"]
REQUIRED = {"arith": 500, "trig": 200, "convert": 20, "refused": 60, "keep": 25}
AN = ["rad", "deg", "arcmin", "arcsec", "mas", "hourangle", "uas"]


def fac(a, b):
    import astropy.units as au
    return (1 * au.Unit(a)).to_value(au.Unit(b))


def draw(rng, sh, lo=-6, hi=3):
    return rng.choice([-1.0, 1.0], sh) * 10 ** rng.uniform(lo, hi, sh)


def mk(rng, sh, un=None, sign=True, how=None, rad=None):
    """An Angle of a random size in a random unit, built in one of the accepted ways."""
    from coordinax.angle import Angle
    from plum import convert
    u = G.U()
    un = un or G.pick(rng, AN)
    x = draw(rng, sh, -3, 1) if rad is None else rad
    if not sign:
        x = np.abs(x)
    x = x * fac("rad", un)
    how = how or G.pick(rng, ["cls", "from_", "quantity", "convert"])
    return {"cls": lambda: Angle(x, un), "from_": lambda: Angle.from_(x, un), "quantity": lambda: Angle.from_(u.Quantity(x, un)), "convert": lambda: convert(u.Quantity(x, un), Angle)}[how]()


def trig_case(i):
    def run(ctx):
        import jax
        import quaxed.numpy as qnp
        rng = ctx.rng
        for it in range(10 if ctx.quick() else 100):
            for un in AN:
                sh = G.pick(rng, [(), (4,), (2, 3), (2, 1, 2), (1,)])
                rad = draw(rng, sh) if rng.random() < 0.7 else rng.integers(-8, 9, sh) * (np.pi / G.pick(rng, [1, 2, 3, 4, 6]))
                a = mk(rng, sh, un, rad=rad)
                exact = np.asarray(a.value, np.longdouble) * np.longdouble(fac(un, "rad"))
                err = 4e-16 * np.abs(np.asarray(exact, float)) + 3e-16
                for fn in ("sin", "cos", "tan"):
                    for how in ("eager", "jit") if it % 5 == 0 else ("eager",):
                        m = f"{fn}:{how}"
                        w = dict(unit=un, a=str(a)[:120])
                        with ctx.scope(m, **w):
                            f = getattr(qnp, fn)
                            out = (jax.jit(f) if how == "jit" else f)(a)
                            ctx.check(type(out).__name__ == "Quantity[PhysicalType('dimensionless')]" and str(out.unit) == "" and out.shape == sh, m + ":type", f"{type(out).__name__} {out.unit}", **w)
                            want = np.asarray(getattr(np, fn)(exact), float)
                            amp = 1.0 if fn != "tan" else 1 + want**2
                            ctx.close(np.asarray(out.value), want, 8 * err * amp + 3e-15 * np.abs(want), m, f"{w}")
                            ctx.ev("trig")
                            ctx.distinct(fn, how, un, sh)
                if it % 5 == 0:
                    with ctx.scope("pythagoras"):
                        s, c = qnp.sin(a), qnp.cos(a)
                        ctx.close(np.asarray((s * s + c * c).value), np.ones(sh), 1e-14, "pythagoras", "")
                    # trigonometric functions of an Angle and of the equivalent quantity agree
                    q = G.quantity(np.asarray(a.value), un)
                    for fn in ("sin", "cos", "tan"):
                        ctx.close(np.asarray(getattr(qnp, fn)(a).value), np.asarray(getattr(qnp, fn)(q).value), 1e-13 * (1 + np.abs(np.asarray(getattr(np, fn)(exact), float))) + 8 * err * (1 + np.tan(np.asarray(exact, float))**2), f"{fn}:same-as-quantity", un)
                ctx.sample(unit=un, shape=str(sh))
    return run


def arith_case(i):
    def run(ctx):
        import operator as op
        import jax
        import jax.numpy as jnp
        import quaxed.numpy as qnp
        import coordinax.distance as cd
        from coordinax.angle import Angle
        u = G.U()
        rng = ctx.rng
        for it in range(3 if ctx.quick() else 40):
            sh = G.pick(rng, [(), (3,), (2, 3)])
            sh2 = G.pick(rng, [sh, (), sh, (1,) * len(sh)])
            a = mk(rng, sh)
            before = repr(a)
            same = [("angle", mk(rng, sh2)), ("quantity", u.Quantity(draw(rng, sh2, -1, 2), G.pick(rng, AN)))]
            for pn, b in same:
                for on, f in (("add", op.add), ("sub", op.sub), ("max", qnp.maximum), ("min", qnp.minimum)):
                    for x, y, side in ((a, b, "L"), (b, a, "R")):
                        m = f"{on}:{pn}:{side}"
                        ax, ay = ref_of(x), ref_of(y)
                        w = dict(a=str(x)[:80], b=str(y)[:80], mag=float(np.abs(ax.value).max() + np.abs(ay.to_value(ax.unit)).max()))
                        with ctx.scope(m, **w):
                            want = {"add": op.add, "sub": op.sub, "max": np.maximum, "min": np.minimum}[on](ax, ay)
                            out = (jax.jit(f) if it % 3 == 1 else f)(x, y)
                            compare(ctx, out, want, x, m, {"Angle"} if pn == "angle" else {"Angle", "Quantity"}, **w)
                            ctx.ev("arith")
                            ctx.distinct(on, pn, side)
                for on, f in (("lt", op.lt), ("le", op.le), ("gt", op.gt), ("eq", op.eq), ("ne", op.ne)):
                    for x, y, side in ((a, b, "L"), (b, a, "R"), (a, a.uconvert(a.unit), "S")):
                        ax, ay = ref_of(x), ref_of(y)
                        if side != "S" and np.any(np.abs(ax.value - ay.to_value(ax.unit)) < 1e-9 * np.abs(ax.value)):
                            continue
                        m = f"{on}:{pn}:{side}"
                        with ctx.scope(m):
                            compare(ctx, f(x, y), np.asarray(f(ax, ay)), x, m, {"Angle"})
                            ctx.ev("arith")
                for x, y, side in ((a, b, "L"), (b, a, "R")):
                    with ctx.scope(f"atan2:{pn}:{side}"):
                        out = qnp.arctan2(x, y)
                        want = np.arctan2(ref_of(x), ref_of(y))
                        compare(ctx, out, want, x, f"atan2:{pn}:{side}", {"Angle", "Quantity"}, mag=1.0)
                        ctx.ev("arith")
            others = [("angle", mk(rng, sh2)), ("angleq", u.Quantity(draw(rng, sh2, -1, 1), "deg")), ("length", u.Quantity(draw(rng, sh2, -1, 1), "kpc")), ("rate", u.Quantity(draw(rng, sh2, -1, 1), "mas/yr")),
                      ("speed", u.Quantity(draw(rng, sh2, -1, 1), "km/s")), ("Distance", cd.Distance(np.abs(draw(rng, sh2, -1, 1)), "pc")), ("Parallax", cd.Parallax(np.abs(draw(rng, sh2, -1, 1)), "mas")),
                      ("dimless", u.Quantity(draw(rng, sh2, -1, 1), ""))]
            for pn, b in others:
                for on, f in (("mul", op.mul), ("div", op.truediv)):
                    for x, y, side in ((a, b, "L"), (b, a, "R")):
                        m = f"{on}:{pn}:{side}"
                        w = dict(a=str(x)[:80], b=str(y)[:80])
                        with ctx.scope(m, **w):
                            out = (jax.jit(f) if it % 3 == 1 else f)(x, y)
                            want = f(ref_of(x), ref_of(y))
                            keep = {"Quantity", "Angle"} if pn == "dimless" and (on == "mul" or side == "L") else {"Quantity"}
                            compare(ctx, out, want, x, m, keep, **w)
                            ctx.ev("arith")
                            ctx.distinct(on, pn, side)
            for pn, s in (("float", float(rng.uniform(-5, 5))), ("array", rng.uniform(0.5, 5, sh2)), ("int", int(rng.integers(1, 5))), ("np", np.float64(2.5))):
                s = jnp.asarray(s) if pn == "array" else s
                for m, f, keep in ((f"smul:{pn}:L", lambda: a * s, {"Angle"}), (f"smul:{pn}:R", lambda: s * a, {"Angle"}), (f"sdiv:{pn}:L", lambda: a / s, {"Angle"}), (f"sdiv:{pn}:R", lambda: s / a, {"Quantity"})):
                    if pn == "np" and m.endswith("R"):
                        continue  # NumPy scalars on the left take over the operation
                    with ctx.scope(m):
                        ra, rs = ref_of(a), np.asarray(s, float)
                        compare(ctx, f(), {"smul": ra * rs, "sdiv": ra / rs if m.endswith("L") else rs / ra}[m[:4]], a, m, keep)
                        ctx.ev("arith")
                        ctx.distinct(m)
            p = mk(rng, sh, sign=False)
            for e in (2, 3, -1, -2, 0.5, 1.5, 0, 1, 1 / 3):
                with ctx.scope("pow", e=e):
                    compare(ctx, p**e, ref_of(p) ** e, p, "pow", {"Quantity"} if e != 1 else {"Quantity", "Angle"}, e=e)
                    ctx.ev("arith")
            for fn in ("sqrt", "cbrt", "square", "reciprocal"):
                with ctx.scope(fn):
                    compare(ctx, getattr(qnp, fn)(p), getattr(np, fn)(ref_of(p)), p, fn, {"Quantity"})
                    ctx.ev("arith")
            with ctx.scope("neg"):
                compare(ctx, -a, -ref_of(a), a, "neg", {"Angle"})
                compare(ctx, abs(a), abs(ref_of(a)), a, "abs", {"Angle"})
                compare(ctx, qnp.matmul(a.reshape(-1), a.reshape(-1)), np.dot(ref_of(a).reshape(-1), ref_of(a).reshape(-1)), a, "dot", {"Quantity"}, mag=float((np.asarray(a.value)**2).sum()))
                b = mk(rng, sh).reshape(-1)  # another angle in another unit
                A2, B2 = ref_of(a).reshape(-1), ref_of(b)
                mg = float(np.abs(A2.value).sum() * np.abs(B2.value).max())
                for fn, f in (("matmul", qnp.matmul), ("dot", qnp.dot), ("vdot", qnp.vdot), ("inner", qnp.inner), ("vecdot", qnp.vecdot)):
                    if hasattr(qnp, fn):
                        compare(ctx, f(a.reshape(-1), b), np.dot(A2, B2), a, "dot2:" + fn, {"Quantity"}, mag=mg)
                        ctx.ev("arith"); ctx.distinct("dot2", fn)
                if len(sh) == 2:
                    compare(ctx, qnp.matmul(a, b.reshape(sh).T), np.matmul(ref_of(a), B2.reshape(sh).T), a, "matmul2", {"Quantity"}, mag=mg)
                r = u.Quantity(rng.uniform(1, 2, np.shape(a.reshape(-1).value)), "kpc")
                compare(ctx, qnp.matmul(a.reshape(-1), r), np.dot(ref_of(a).reshape(-1), ref_of(r)), a, "dot:length", {"Quantity"}, mag=float(2 * np.abs(np.asarray(a.value)).sum()))
            if sh:
                R_ = ref_of(a)
                mg = float(np.abs(R_.value).sum())
                for fn, f, want in [("sum", lambda: qnp.sum(a, axis=0), R_.sum(0)), ("mean", lambda: qnp.mean(a), R_.mean()), ("max", lambda: qnp.max(a, axis=-1), R_.max(-1)), ("min", lambda: qnp.min(a), R_.min()),
                                    ("cumsum", lambda: qnp.cumsum(a, axis=0), np.cumsum(R_, 0)), ("index", lambda: a[0], R_[0]), ("index2", lambda: a[..., -1], R_[..., -1]), ("reshape", lambda: a.reshape(-1), R_.reshape(-1)),
                                    ("T", lambda: a.T, R_.T), ("concat", lambda: qnp.concatenate([a, a]), np.concatenate([R_, R_])), ("stack", lambda: qnp.stack([a, a], -1), np.stack([R_, R_], -1)), ("sort", lambda: qnp.sort(a, axis=-1), np.sort(R_, -1)),
                                    ("weights", lambda: qnp.matmul(jnp.ones(sh[0]), a), R_.sum(0))]:
                    with ctx.scope(fn):
                        compare(ctx, f(), want, a, fn, {"Angle"}, mag=mg)
                        ctx.ev("keep")
            ctx.check(repr(a) == before, "mutated", "operand changed")
            for pn, b in (("length", u.Quantity(1.0, "kpc")), ("time", u.Quantity(1.0, "s")), ("number", 2.0), ("dimless", u.Quantity(1.0, "")), ("Distance", cd.Distance(1.0, "pc"))):
                for on, f in (("add", op.add), ("sub", op.sub), ("lt", op.lt), ("eq", op.eq)):
                    if on in ("lt", "eq") and pn in ("number", "dimless"):
                        continue
                    ctx.must_raise(lambda: f(a, b), f"refuse:{on}:{pn}")
                    ctx.must_raise(lambda: f(b, a), f"refuse:{on}:{pn}:R")
                    ctx.ev("refused", 2)
    return run


def convert_case(ctx):
    import jax
    from coordinax.angle import Angle, AbstractAngle
    import coordinax.distance as cd
    from plum import convert
    import unxt.quantity as uq
    u = G.U()
    rng = ctx.rng
    for _ in range(20 if ctx.quick() else 200):
        sh = G.pick(rng, [(), (3,), (2, 3), (0,)])
        un, un2 = G.pick(rng, AN), G.pick(rng, AN)
        x = draw(rng, sh)
        dt = G.pick(rng, [np.float64, np.float32, np.int32])
        x = x.astype(dt) if dt is not np.int32 else np.round(x).astype(dt)
        q = u.Quantity(x, un)
        w = dict(unit=un, shape=sh, dtype=str(dt))
        same = lambda o, cls: type(o).__name__.split("[")[0] == cls and str(o.unit) == un and o.value.dtype == dt and np.array_equal(np.asarray(o.value), x)
        with ctx.scope("convert", **w):
            for nm, o in (("cls", Angle(x, un)), ("from_", Angle.from_(x, un)), ("from_quantity", Angle.from_(q)), ("convert", convert(q, Angle)), ("convert-unchecked", convert(uq.UncheckedQuantity(x, un), Angle)), ("from-self", Angle.from_(Angle(x, un))), ("convert-self", convert(Angle(x, un), Angle))):
                ctx.check(same(o, "Angle"), f"convert:{nm}", f"{o} from {q}", **w)
                ctx.check(isinstance(o, AbstractAngle), f"convert:{nm}:abstract", "")
            a = Angle(x, un)
            for nm, o, c in (("to-quantity", convert(a, u.Quantity), "Quantity"), ("quantity-from", u.Quantity.from_(a), "Quantity"), ("to-unchecked", convert(a, uq.UncheckedQuantity), "UncheckedQuantity")):
                ctx.check(same(o, c), nm, f"{o} from {a}", **w)
            y = np.abs(x)
            ctx.check(np.array_equal(np.asarray(convert(cd.Parallax(y, un), Angle).value), y), "from-parallax", "")
            o = a.uconvert(un2)
            ctx.check(type(o) is Angle and str(o.unit) == un2 and o.shape == sh, "uconvert:type", f"{o}", **w)
            ctx.close(np.asarray(o.value, float), np.asarray(x, float) * fac(un, un2), (1e-14 if dt is not np.float32 else 1e-6) * np.abs(np.asarray(x, float) * fac(un, un2)), "uconvert:value", f"{w}")
            ctx.close(np.asarray(a.to_value(un2), float), np.asarray(o.value, float), 0.0, "to_value", "")
            j = jax.jit(lambda z: z)(a)
            ctx.check(same(j, "Angle"), "jit-identity", f"{j}")
            ctx.ev("convert")
            ctx.distinct("convert", un, un2, sh, str(dt))
    for un in ("kpc", "", "rad2", "mag", "s", "rad/s", "sr", "1/rad", "km/s"):
        for x in (1.0, np.ones(3), [1, 2]):
            for nm, f in (("cls", lambda: Angle(x, un)), ("from_", lambda: Angle.from_(x, un)), ("from_quantity", lambda: Angle.from_(u.Quantity(x, un))), ("convert", lambda: convert(u.Quantity(x, un), Angle))):
                ctx.must_raise(f, f"refuse:{nm}", msg=un)
                ctx.ev("refused")
    ctx.must_raise(lambda: convert(cd.Distance(1.0, "kpc"), Angle), "refuse:distance")
    ctx.must_raise(lambda: jax.jit(lambda z: Angle(z, "kpc"))(1.0), "refuse:jit")
    with ctx.scope("grad"):
        import quaxed.numpy as qnp
        for un in AN:
            for x0 in (0.3, -1.2, 2.0):
                v = x0 * fac("rad", un)
                g = jax.grad(lambda z: qnp.sin(Angle(z, un)).value)(v)
                ctx.close(np.asarray(g), np.cos(x0) * fac(un, "rad"), 1e-12 * fac(un, "rad"), "grad:sin", un)
                g = jax.grad(lambda z: qnp.tan(Angle(z, un)).value)(v)
                ctx.close(np.asarray(g), fac(un, "rad") / np.cos(x0) ** 2, 1e-11 * fac(un, "rad") / np.cos(x0) ** 2, "grad:tan", un)
                ctx.ev("trig", 2)


def cases(tier):
    n = 4 if tier == "quick" else 12
    return [(f"trig:{i}", trig_case(i)) for i in range(n)] + [(f"arith:{i}", arith_case(i)) for i in range(n)] + [("convert", convert_case)]


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

"""C14: distance, parallax and distance modulus: definitions, round trips, refusal of nonsense, arithmetic."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import model as M, gen as G, runtime as R
from mon.qarith import compare, plain, ref_of

PROP = "C14"
RULE = ("a case draws distances over 20 decades in random units/shapes, expresses each as Distance, Parallax, DistanceModulus or the equivalent "
        "plain quantity, converts between all pairs by property, constructor and type conversion (eager and jitted), and compares with "
        "tan(p) = 1 AU/d, m = 5 log10(d/10 pc) evaluated in extended precision; arithmetic is compared with astropy quantities and the result "
        "type with the dimension rule; distinct = (source, how, target, unit, shape) / (operation, operand types)")
ASSUMPTIONS = ["the sign check of a parallax acts on concrete values (under jit JAX removes it)",
               "arithmetic = + - * / powers roots comparisons, |x|, -x, trigonometric functions of a parallax, reductions and shape operations that keep the dimension"]
REQUIRED = {"convert": 600, "roundtrip": 300, "refused": 40, "arith": 500, "keep": 100}
AU_PC = np.longdouble(149597870700.0) / (np.longdouble(149597870700.0) * 648000 / np.longdouble(np.pi))
LU = ["pc", "kpc", "Mpc", "AU", "km", "m", "lyr"]
AN = ["mas", "arcsec", "uarcsec", "deg", "rad", "arcmin"]
SHAPES = [(), (3,), (2, 3), (2, 1, 2), (1,), (0,)]


def draw(rng, shape, lo=-4, hi=9):
    return 10 ** rng.uniform(lo, hi, shape)  # pc


def truth(dpc):
    d = np.asarray(dpc, np.longdouble)
    return {"Distance": d, "Parallax": np.arctan2(AU_PC, d), "DistanceModulus": 5 * np.log10(d / 10)}


STD = {"Distance": "pc", "Parallax": "rad", "DistanceModulus": "mag"}


def units_of(kind):
    return {"Distance": LU, "Parallax": AN, "DistanceModulus": ["mag"]}[kind]


def fac(a, b):
    import astropy.units as au
    if a == b or (a, b) == ("mag", "mag"):
        return 1.0
    return (1 * au.Unit(a)).to_value(au.Unit(b))


def make(rng, kind, dpc, form=None):
    """(library object, unit, the distance in pc it exactly denotes)."""
    import coordinax.distance as cd
    import coordinax.angle as ca
    t = np.asarray(truth(dpc)[kind], float)
    un = G.pick(rng, units_of(kind))
    val = t * fac(STD[kind], un)
    form = form or G.pick(rng, ["cls", "quantity", "cls"])
    if form == "quantity":
        obj = G.quantity(val, un)
    else:
        obj = getattr(cd, kind)(val, un) if rng.random() < 0.5 else getattr(cd, kind).from_(val, un)
    std = np.asarray(val, np.longdouble) * np.longdouble(fac(un, STD[kind]))
    exact = {"Distance": lambda: std, "Parallax": lambda: AU_PC / np.tan(std), "DistanceModulus": lambda: 10 ** (std / 5 + 1)}[kind]()
    return obj, un, exact


def rel(ctx, got, want, tol, mech, absolute=0.0, /, **w):
    got, want = np.asarray(got, float), np.asarray(want, float)
    ctx.close(got, want, tol * np.abs(want) + absolute if want.size else 0.0, mech, f"{w}")


def judge(ctx, out, target, dpc, mech, shape_, /, **w):
    ctx.check(type(out).__name__ == target, mech + ":type", f"{type(out).__name__}", **w)
    ctx.check(out.shape == shape_, mech + ":shape", f"{out.shape}", **w)
    t = truth(dpc)[target]
    got = np.asarray(out.value) * fac(str(out.unit), STD[target])
    rel(ctx, got, t, 1e-13 if target != "DistanceModulus" else 0.0, mech, 0.0 if target != "DistanceModulus" else 1e-12, **w)


ATTR = {"Distance": "distance", "Parallax": "parallax", "DistanceModulus": "distance_modulus"}
CONSTRUCT = {("Distance", "Distance"), ("Parallax", "Distance"), ("DistanceModulus", "Distance"), ("Distance", "Parallax"), ("Parallax", "Parallax"), ("DistanceModulus", "DistanceModulus")}
KINDS = list(ATTR)


def convert_case(src):
    def run(ctx):
        import jax
        import coordinax.distance as cd
        from plum import convert
        rng = ctx.rng
        for it in range(25 if ctx.quick() else 250):
            shape = G.pick(rng, SHAPES)
            d0 = draw(rng, shape) if rng.random() < 0.8 else np.full(shape, G.pick(rng, [1.0, 10.0, 1e-3, 1e6, 100.0]))
            for tgt in KINDS:
                obj, un, d = make(rng, src, d0, "cls")
                w = dict(src=src, tgt=tgt, unit=un, shape=shape)
                with ctx.scope(f"property:{src}:{tgt}", **w):
                    before = repr(obj)
                    out = getattr(obj, ATTR[tgt])
                    judge(ctx, out, tgt, d, f"property:{src}:{tgt}", shape, **w)
                    b = getattr(out, ATTR[src])
                    judge(ctx, b, src, d, f"roundtrip:{src}:{tgt}", shape, **w)
                    ctx.check(repr(obj) == before, f"property:{src}:{tgt}:mutated", "", **w)
                    ctx.ev("convert"); ctx.ev("roundtrip")
                    ctx.distinct("property", src, tgt, un, shape)
                    if it % 8 == 0 and shape:
                        judge(ctx, jax.jit(lambda x: getattr(x, ATTR[tgt]))(obj), tgt, d, f"jit:{src}:{tgt}", shape, **w)
                if (src, tgt) in CONSTRUCT:
                    for form in ("cls", "quantity"):
                        obj, un, d = make(rng, src, d0, form)
                        w.update(unit=un, form=form)
                        with ctx.scope(f"construct:{src}:{tgt}", **w):
                            out = getattr(cd, tgt).from_(obj)
                            judge(ctx, out, tgt, d, f"construct:{form}:{src}:{tgt}", shape, **w)
                            if src == tgt and form == "quantity":
                                c = convert(obj, getattr(cd, tgt))
                                judge(ctx, c, tgt, d, f"typeconv:{src}:{tgt}", shape, **w)
                                ctx.check(str(c.unit) == un, f"typeconv:{src}:{tgt}:unit", f"{c.unit}", **w)
                            ctx.ev("convert")
                            ctx.distinct("construct", form, src, tgt, un, shape)
                    if it % 6 == 0 and src != tgt and shape != (0,):
                        o32 = getattr(cd, tgt).from_(obj, dtype=np.float32)
                        ctx.check(o32.value.dtype == np.float32, f"construct:dtype:{src}:{tgt}", f"{o32.value.dtype}")
                        rel(ctx, np.asarray(o32.value, float) * fac(str(o32.unit), STD[tgt]), truth(d)[tgt], 1e-6, f"construct:dtype-value:{src}:{tgt}")
            # conversion to and from a plain quantity keeps value and unit
            obj, un, d = make(rng, src, d0, "cls")
            u = G.U()
            q = convert(obj, u.Quantity)
            q2 = u.Quantity.from_(obj)
            for k, x in (("convert", q), ("from_", q2)):
                ctx.check(type(x).__name__.startswith("Quantity") and str(x.unit) == un and np.array_equal(np.asarray(x.value), np.asarray(obj.value)), f"to-quantity:{k}", f"{x} from {obj}")
            c = convert(q, getattr(cd, src))
            ctx.check(type(c) is getattr(cd, src) and str(c.unit) == un and np.array_equal(np.asarray(c.value), np.asarray(obj.value)), "from-quantity", f"{c} from {q}")
            u2 = G.pick(rng, units_of(src))
            x = obj.uconvert(u2)
            ctx.check(type(x) is type(obj) and str(x.unit) == u2, "uconvert:type", f"{type(x)} {x.unit}")
            rel(ctx, np.asarray(x.value), np.asarray(obj.value) * fac(un, u2), 1e-14, "uconvert:value")
            ctx.ev("keep")
            ctx.sample(src=src, d=np.ravel(np.asarray(d, float))[:2].tolist(), unit=un)
    return run


def triangle_case(ctx):
    """Chains of conversions in random order come back to the start."""
    rng = ctx.rng
    for _ in range(40 if ctx.quick() else 500):
        shape = G.pick(rng, SHAPES)
        src = G.pick(rng, KINDS)
        obj, un, d = make(rng, src, draw(rng, shape, -2, 8), "cls")
        chain = [G.pick(rng, KINDS) for _ in range(int(rng.integers(2, 7)))]
        with ctx.scope("chain", chain=chain):
            x = obj
            for k in chain:
                x = getattr(x, ATTR[k])
                if rng.random() < 0.4:
                    x = x.uconvert(G.pick(rng, units_of(k)))
            x = getattr(x, ATTR[src])
            t = np.asarray(obj.value) * fac(un, STD[src])
            rel(ctx, np.asarray(x.value) * fac(str(x.unit), STD[src]), t, 1e-12, "chain", 1e-12 if src == "DistanceModulus" else 0.0, src=src, chain=chain)
            ctx.ev("roundtrip")


def refuse_case(ctx):
    import coordinax.distance as cd
    from coordinax.angle import Angle
    from plum import convert
    u = G.U()
    rng = ctx.rng
    wrong = {"Distance": ["deg", "mas", "mag", "s", "km/s", "kpc2", ""], "Parallax": ["kpc", "mag", "s", "", "mas2", "1/rad"], "DistanceModulus": ["kpc", "deg", "s", "", "dex", "mag2"]}
    for k, us in wrong.items():
        C = getattr(cd, k)
        for un in us:
            for v in (1.0, np.ones(3)):
                ctx.must_raise(lambda: C(v, un), f"refuse:{k}", msg=un)
                ctx.must_raise(lambda: C.from_(v, un), f"refuse:{k}:from_", msg=un)
                ctx.must_raise(lambda: convert(u.Quantity(v, un), C), f"refuse:{k}:convert", msg=un)
                ctx.ev("refused", 3)
        for un in ["s", "km/s", ""]:
            ctx.must_raise(lambda: C.from_(u.Quantity(1.0, un)), f"refuse:{k}:from_quantity", msg=un)
            ctx.ev("refused")
    for vals in (-1.0, [-1e-12], [1.0, -1.0], [[1.0, 2], [3, -0.5]], -1):
        for un in AN:
            ctx.must_raise(lambda: cd.Parallax(vals, un), "refuse:negative-parallax", msg=f"{vals}")
            ctx.must_raise(lambda: cd.Parallax.from_(vals, un), "refuse:negative-parallax:from_", msg=f"{vals}")
            ctx.must_raise(lambda: cd.Parallax.from_(u.Quantity(vals, un)), "refuse:negative-parallax:quantity", msg=f"{vals}")
            ctx.must_raise(lambda: convert(u.Quantity(vals, un), cd.Parallax), "refuse:negative-parallax:convert", msg=f"{vals}")
            ctx.must_raise(lambda: cd.Parallax.from_(Angle(vals, un)), "refuse:negative-parallax:angle", msg=f"{vals}")
            with ctx.scope("negative-allowed"):
                p = cd.Parallax(vals, un, check_negative=False)
                got = [p * 2.0, p.uconvert("rad"), p + p, p.reshape(-1), p / 3.0]
                for g in got:
                    ctx.check(type(g) is cd.Parallax and g.check_negative is False, "negative-allowed:kept", f"{g}")
                rel(ctx, got[1].value, np.asarray(vals, float) * fac(un, "rad"), 1e-14, "negative-allowed:value")
                dd = p.distance
                rel(ctx, np.asarray(dd.value) * fac(str(dd.unit), "pc"), np.asarray(AU_PC / np.tan(np.asarray(vals, np.longdouble) * fac(un, "rad"))), 1e-12, "negative-allowed:distance")
            ctx.ev("refused", 5)
    for ok in (0.0, [0.0, 1.0], np.zeros((2, 2))):
        with ctx.scope("zero-parallax"):
            cd.Parallax(ok, "mas")
    p = cd.Parallax([1.0, 2.0], "mas")
    for f in (lambda: -p, lambda: p - p * 2.0, lambda: p * -1.0):
        ctx.must_raise(f, "refuse:negative-result")
        ctx.ev("refused")


def arith_case(kind):
    def run(ctx):
        import operator as op
        import astropy.units as au
        import coordinax.distance as cd
        import quaxed.numpy as qnp
        from coordinax.angle import Angle
        u = G.U()
        rng = ctx.rng
        C = getattr(cd, kind)
        mk = lambda sh, un=None: C(rng.uniform(0.5, 20, sh), un or G.pick(rng, units_of(kind)))
        for it in range(6 if ctx.quick() else 60):
            sh = G.pick(rng, [(), (3,), (2, 3)])
            sh2 = G.pick(rng, [sh, (), sh, (1,) * len(sh)])
            a = mk(sh)
            me = {kind}
            # same-dimension partners
            partners = [("same", mk(sh2)), ("quantity", u.Quantity(rng.uniform(0.5, 20, sh2), G.pick(rng, units_of(kind))))]
            if kind == "Parallax":
                partners.append(("angle", Angle(rng.uniform(0.5, 20, sh2), G.pick(rng, AN))))
            for pn, b in partners:
                for on, f in (("add", op.add), ("sub", op.sub)):
                    for x, y, side in ((a, b, "L"), (b, a, "R")):
                        ax, ay = ref_of(x), ref_of(y)
                        want = f(ax, ay)
                        if kind == "Parallax" and type(x) is C and on == "sub" and np.any(np.asarray(want.value) < 0):
                            continue
                        m = f"{on}:{kind}:{pn}:{side}"
                        w = dict(a=str(x)[:80], b=str(y)[:80], mag=float(np.abs(ax.value).max() + np.abs(ay.to_value(ax.unit)).max()))
                        with ctx.scope(m, **w):
                            compare(ctx, f(x, y), want, x, m, {kind, "Quantity", "Angle"}, **w)
                            ctx.ev("arith")
                            ctx.distinct(on, kind, pn, side)
                for on, f in (("lt", op.lt), ("ge", op.ge), ("eq", op.eq), ("ne", op.ne)):
                    for x, y, side in ((a, b, "L"), (b, a, "R"), (a, a * 1.0, "S")):
                        m = f"{on}:{kind}:{pn}:{side}"
                        with ctx.scope(m):
                            ax, ay = ref_of(x), ref_of(y)
                            if side != "S" and on in ("eq", "ne", "ge", "lt") and np.any(np.abs(ax.value - ay.to_value(ax.unit)) < 1e-9 * np.abs(ax.value)):
                                continue
                            compare(ctx, f(x, y), np.asarray(f(ax, ay)), x, m, me)
                            ctx.ev("arith")
            # products and quotients with anything
            others = [("same", mk(sh2)), ("length", u.Quantity(rng.uniform(0.5, 9, sh2), G.pick(rng, LU))), ("angleq", u.Quantity(rng.uniform(0.5, 9, sh2), "deg")),
                      ("time", u.Quantity(rng.uniform(0.5, 9, sh2), "Myr")), ("Distance", cd.Distance(rng.uniform(0.5, 9, sh2), "pc")), ("Parallax", cd.Parallax(rng.uniform(0.5, 9, sh2), "mas")),
                      ("DistanceModulus", cd.DistanceModulus(rng.uniform(0.5, 9, sh2), "mag")), ("Angle", Angle(rng.uniform(0.5, 9, sh2), "arcmin")), ("speed", u.Quantity(rng.uniform(0.5, 9, sh2), "km/s"))]
            for pn, b in others:
                for on, f in (("mul", op.mul), ("div", op.truediv)):
                    for x, y, side in ((a, b, "L"), (b, a, "R")):
                        m = f"{on}:{kind}:{pn}:{side}"
                        w = dict(a=str(x)[:80], b=str(y)[:80])
                        with ctx.scope(m, **w):
                            compare(ctx, f(x, y), f(ref_of(x), ref_of(y)), x, m, {"Quantity"}, **w)
                            ctx.ev("arith")
                            ctx.distinct(on, kind, pn, side)
            for pn, s in (("float", float(rng.uniform(0.5, 5))), ("array", np.asarray(rng.uniform(0.5, 5, sh2))), ("int", int(rng.integers(1, 5)))):
                import jax.numpy as jnp
                s = jnp.asarray(s) if pn == "array" else s
                for m, f, keep in ((f"smul:{kind}:{pn}:L", lambda: a * s, me), (f"smul:{kind}:{pn}:R", lambda: s * a, me), (f"sdiv:{kind}:{pn}:L", lambda: a / s, me), (f"sdiv:{kind}:{pn}:R", lambda: s / a, {"Quantity"})):
                    with ctx.scope(m):
                        ra, rs = ref_of(a), np.asarray(s, float)
                        want = {"smul": ra * rs, "sdiv": ra / rs if m.endswith("L") else rs / ra}[m[:4]]
                        compare(ctx, f(), want, a, m, keep)
                        ctx.ev("arith")
                        ctx.distinct(m)
            for e in (2, 3, -1, -2, 0.5, 1.5, 0, 1):
                with ctx.scope(f"pow:{kind}", e=e):
                    compare(ctx, a**e, ref_of(a) ** e, a, f"pow:{kind}", {"Quantity"} if e != 1 else {"Quantity", kind}, e=e)
                    ctx.ev("arith")
            for fn in ("sqrt", "cbrt", "square", "reciprocal"):
                with ctx.scope(f"{fn}:{kind}"):
                    compare(ctx, getattr(qnp, fn)(a), getattr(np, fn)(ref_of(a)), a, f"{fn}:{kind}", {"Quantity"})
                    ctx.ev("arith")
            with ctx.scope(f"abs:{kind}"):
                compare(ctx, abs(a), abs(ref_of(a)), a, f"abs:{kind}", me)
                if kind != "Parallax":
                    compare(ctx, -a, -ref_of(a), a, f"neg:{kind}", me)
                compare(ctx, qnp.matmul(a.reshape(-1), a.reshape(-1)), np.dot(ref_of(a).reshape(-1), ref_of(a).reshape(-1)), a, f"dot:{kind}", {"Quantity"})
                b = mk(sh).reshape(-1)  # in another unit
                A2, B2 = ref_of(a).reshape(-1), ref_of(b)
                for fn in ("matmul", "dot", "vdot", "inner"):
                    compare(ctx, getattr(qnp, fn)(a.reshape(-1), b), np.dot(A2, B2), a, f"dot2:{kind}", {"Quantity"})
                    compare(ctx, getattr(qnp, fn)(b, a.reshape(-1)), np.dot(B2, A2), b, f"dot2:{kind}", {"Quantity"})
                    ctx.ev("arith", 2)
            if kind == "Parallax":
                for fn in ("sin", "cos", "tan"):
                    for un in AN:
                        p = C(rng.uniform(0.0, 1.4, sh) * fac("rad", un), un)
                        with ctx.scope(f"{fn}:Parallax", unit=un):
                            compare(ctx, getattr(qnp, fn)(p), getattr(np, fn)(ref_of(p)), p, f"{fn}:Parallax", {"Quantity"}, mag=1.0)
                            ctx.ev("arith")
            else:
                for fn in ("sin", "cos", "tan", "exp", "log"):
                    ctx.must_raise(lambda: getattr(qnp, fn)(a), f"refuse:{fn}:{kind}")
            # reductions and shape operations keep the type
            if sh:
                R_ = ref_of(a)
                keepers = [("sum", lambda: qnp.sum(a, axis=0), R_.sum(0)), ("mean", lambda: qnp.mean(a), R_.mean()), ("max", lambda: qnp.max(a, axis=-1), R_.max(-1)), ("min", lambda: qnp.min(a), R_.min()),
                           ("cumsum", lambda: qnp.cumsum(a, axis=0), np.cumsum(R_, 0)), ("index", lambda: a[0], R_[0]), ("index2", lambda: a[..., -1], R_[..., -1]), ("reshape", lambda: a.reshape(-1), R_.reshape(-1)),
                           ("T", lambda: a.T, R_.T), ("concat", lambda: qnp.concatenate([a, a]), np.concatenate([R_, R_])), ("stack", lambda: qnp.stack([a, a], -1), np.stack([R_, R_], -1)), ("sort", lambda: qnp.sort(a, axis=-1), np.sort(R_, -1))]
                for fn, f, want in keepers:
                    with ctx.scope(f"{fn}:{kind}"):
                        compare(ctx, f(), want, a, f"{fn}:{kind}", me)
                        ctx.ev("keep")
            # mixing dimensions is refused
            for pn, b in others[1:]:
                if u.dimension_of(b) == u.dimension_of(a) or (str(b.unit) == "mag" and kind == "DistanceModulus"):
                    continue
                for on, f in (("add", op.add), ("sub", op.sub), ("lt", op.lt)):
                    ctx.must_raise(lambda: f(a, b), f"refuse:{on}:{kind}:{pn}")
                    ctx.must_raise(lambda: f(b, a), f"refuse:{on}:{pn}:{kind}")
                    ctx.ev("refused", 2)
    return run


def cases(tier):
    n = 2 if tier == "quick" else 6
    return [(f"convert:{k}:{i}", convert_case(k)) for k in KINDS for i in range(n)] + [(f"arith:{k}:{i}", arith_case(k)) for k in KINDS for i in range(n)] + \
        [("chain", triangle_case), ("refuse", refuse_case)]


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

"""C27: runtime type checking and float width change nothing but the precision."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import warnings
import numpy as np
from mon import model as M, gen as G, runtime as R, build as B, programs as P

PROP = "C27"
RULE = ("a run executes one public program (the shared library of ~280, plus programs with integer, 32-bit and half-precision operands, mixed "
        "batch shapes and empty batches) on seeded operands, eagerly, under jit and under vmap, in four separate processes: type checking off / "
        "beartype x 64-bit / 32-bit floats. Results, types, units, warnings and exceptions are journaled; an offline checker compares the four "
        "journals: on/off must agree to the last bits of the width in force, the widths to 32-bit accuracy. Component dtypes are checked in "
        "each process. distinct = (program, transformation, shape, configuration)")
ASSUMPTIONS = ["CartesianVel1D/Acc1D and RadialVel/Acc keep integer components (pinned by doctests); ProlateSpheroidalPos.Delta keeps its dtype",
               "32-bit results are compared relative to the largest value of the same dimension in the result and the operands (cancellation)"]
MODES = [{"COORDINAX_ENABLE_RUNTIME_TYPECHECKING": c, "JAX_ENABLE_X64": x} for x in ("1", "0") for c in ("None", "beartype.beartype")]
LABEL = ["off/64", "beartype/64", "off/32", "beartype/32"]
REQUIRED = {"run": 5000, "compare:checker": 2500, "compare:width": 1200, "dtype": 5000, "run:jit": 100, "run:vmap": 60, "run:int": 1400, "warned": 40}


def flat(x):
    """A journal entry: [[path, tag, shape, values], ...] with units as spelled."""
    out = []
    for p, (tag, a) in P.phys(x).items():
        a = np.asarray(a)
        out.append([p, tag, list(a.shape), "b" if a.dtype.kind == "b" else "f", [float(z) for z in np.real(a).ravel()]])
    return out


def leaf_types(x, path="", out=None):
    """{path: dtype} of every array leaf of a result."""
    import dataclasses
    out = {} if out is None else out
    if isinstance(x, (tuple, list)):
        for i, y in enumerate(x):
            leaf_types(y, f"{path}[{i}]", out)
    elif type(x).__name__ == "Space":
        for k in x.keys():
            leaf_types(x[k], f"{path}<{k}>", out)
    elif hasattr(x, "unit") and hasattr(x, "value"):
        out[path] = str(np.asarray(x.value).dtype)
    elif hasattr(x, "__dataclass_fields__"):
        for f in dataclasses.fields(x):
            leaf_types(getattr(x, f.name), f"{path}.{f.name}", out)
    return out


def run_one(ctx, key, fn, ops, kind, check_dtype=True):
    ctx.ev("run")
    ctx.ev("run:" + kind)
    ctx.distinct(key, kind, LABEL[ctx.mode])
    import jax
    rec = {}
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            out = fn(*ops)
            jax.block_until_ready([x for x in jax.tree.leaves(out) if isinstance(x, jax.Array)])
        except Exception as e:  # noqa: BLE001
            rec["error"] = f"{type(e).__name__}: {str(e)[:400]}"
            out = None
    rec["warnings"] = sorted(w.category.__name__ for w in ws if "coordinax" in getattr(w.category, "__module__", ""))
    if rec["warnings"]:
        ctx.ev("warned")
    if "error" not in rec:
        rec["value"] = flat(out)
        rec["units"] = P.units(out)
        rec["scale"] = op_scale(ops)
        if check_dtype:
            want = "float64" if ctx.mode < 2 else "float32"
            for p, d in leaf_types(out).items():
                if ".Delta" in p:
                    continue
                d = {"complex128": "float64", "complex64": "float32"}.get(d, d)  # the interval of a spacelike event is imaginary
                ctx.ev("dtype")
                ctx.check(d == want, f"dtype:{key.split('|')[0]}", f"{p} has dtype {d}, the default float is {want}", config=LABEL[ctx.mode])
        if len(key) % 7 == 0:
            ctx.sample(program=key, kind=kind, config=LABEL[ctx.mode], value=str(rec["value"])[:200])
    ctx.journal[f"{key}|{kind}"] = rec
    return out


def op_scale(ops):
    """{dimension: largest operand magnitude}: the level of cancellation a 32-bit result may show."""
    s = {}
    for i, o in enumerate(ops):
        for p, (tag, a) in P.phys(o).items():
            a = np.asarray(a)
            if a.size and a.dtype.kind in "fiu" and "|" in tag:
                k = tag.split("|")[1]
                s[k] = max(s.get(k, 0.0), float(np.max(np.abs(a))))
    return s


# a unit stream restricted to units within 1e4 of the standard one: in 32 bits the square of a length in metres overflows
class NearSlots(P.Slots):
    def unit(self, pool):
        return super().unit([x for x in pool if 1e-4 <= M.factor(pool[0], x) <= 1e4])


def build_ops(rng, prog, shape, urng):
    s = NearSlots(rng, shape, urng, None)
    return [sl(s) for sl in prog.slots]


SHAPES = [(), (3,), (2, 3), (1,), (0,), (1, 3)]


def library_case(chunk, n):
    def run(ctx):
        import jax
        lib = [p for i, p in enumerate(P.library()) if i % n == chunk]
        for j, prog in enumerate(lib):
            sets = [(), SHAPES[1 + (j % (len(SHAPES) - 1))]] if prog.batch else [()]
            if not ctx.quick():
                sets = SHAPES if prog.batch else [()]
            for k, shp in enumerate(sets):
                if ctx.quick() and len(sets) > 1 and (j + k + ctx.seed) % 3 == 0:
                    continue
                rng = np.random.default_rng([ctx.seed, chunk, j, k])
                urng = None if k % 2 == 0 else np.random.default_rng([ctx.seed, 7, chunk, j, k])
                try:
                    ops = build_ops(rng, prog, shp, urng)
                except Exception as e:  # noqa: BLE001
                    ctx.journal[f"{prog.name}|{shp}|build"] = {"error": f"{type(e).__name__}: {str(e)[:300]}", "warnings": []}
                    continue
                run_one(ctx, f"{prog.name}|{shp}", prog.fn, ops, "eager")
                pick = (j // 3 + k + ctx.seed) % 4
                if prog.jit and (pick == 0 or not ctx.quick()) and k == 0:
                    run_one(ctx, f"{prog.name}|{shp}", jax.jit(prog.fn), ops, "jit")
                if prog.vmap and prog.batch and len(shp) and shp[0] > 0 and (pick == 1 or not ctx.quick()):
                    run_one(ctx, f"{prog.name}|{shp}", jax.vmap(prog.fn), ops, "vmap")
    return run


# ------------------------------------------------------------------------------------------ integer and narrow operands
KEEPS_INT = {"RadialVel", "RadialAcc", "CartesianVel1D", "CartesianAcc1D"}


def number_kinds():
    import jax.numpy as jnp
    return {"int": lambda a: [int(z) for z in np.ravel(a)] if np.ndim(a) else int(a), "i32": lambda a: jnp.asarray(a, dtype=jnp.int32),
            "f32": lambda a: jnp.asarray(a, dtype=jnp.float32), "f16": lambda a: jnp.asarray(a, dtype=jnp.float16),
            "np64": lambda a: np.asarray(a, dtype=np.float64), "np-int": lambda a: np.asarray(a, dtype=np.int64), "u8": lambda a: jnp.asarray(a, dtype=jnp.uint8)}


def pick_kinds(ctx, kinds):
    """quick: plain integers, 32-bit integers and one other (the same in every configuration: seeded by the case)."""
    return list(kinds) if not ctx.quick() else ["int", "i32", list(kinds)[2 + int(ctx.rng.integers(len(kinds) - 2))]]


def int_case(ctx):
    """Whole-number components given in every number type: same vector, float components."""
    u, v = G.U(), G.vecs()
    kinds = number_kinds()
    for name, (order, comps) in B.FIELDS.items():
        cls = getattr(v, name)
        base = {k: 1 + i for i, (k, _) in enumerate(comps)}
        if name == "ProlateSpheroidalPos":
            base = {"mu": 3, "nu": 1, "phi": 2}
        for kn in pick_kinds(ctx, kinds):
            f = kinds[kn]
            for shp in ((), (2,)):
                if kn == "int" and shp:
                    continue
                kw = {k: u.Quantity(f(np.broadcast_to(base[k], shp)), B.unit_of(name, k)) for k in base}
                if name == "ProlateSpheroidalPos":
                    kw["Delta"] = u.Quantity(1.5, "kpc")
                a = run_one(ctx, f"int:{name}|{kn}|{shp}", lambda: cls(**kw), [], "int", check_dtype=name not in KEEPS_INT)
                b = run_one(ctx, f"int-from:{name}|{kn}|{shp}", lambda: cls.from_(**kw), [], "int", check_dtype=name not in KEEPS_INT)
                ref = P.phys(cls(**{k: (u.Quantity(np.broadcast_to(float(base[k]), shp), B.unit_of(name, k)) if k != "Delta" else kw[k]) for k in kw}))
                for x in (a, b):
                    if x is not None:
                        P.compare(ctx, P.phys(x), ref, 1e-6 if ctx.mode > 1 else 1e-14, f"int:{name}:value", kind=kn)
    for n, (fam, order) in B.ND.items():
        for kn, f in kinds.items():
            for m in (1, 3, 4):
                if kn == "int":
                    continue
                q = u.Quantity(f(np.arange(1, m + 1)), ["kpc", "kpc/Myr", "kpc/Myr2"][order])
                run_one(ctx, f"int:{n}|{kn}|{m}", lambda: getattr(v, n)(q), [], "int")
                run_one(ctx, f"int-from:{n}|{kn}|{m}", lambda: getattr(v, n).from_(q), [], "int")
    for d in (1, 2, 3):
        for o, s in enumerate(("Pos", "Vel", "Acc")):
            un = ["kpc", "kpc/Myr", "kpc/Myr2"][o]
            for kn, f in kinds.items():
                cn = f"Cartesian{s}{d}D"
                for shp in ((), (2,)):
                    if kn == "int" and shp:
                        continue
                    arr = f(np.broadcast_to(np.arange(1, d + 1), shp + (d,)))
                    run_one(ctx, f"array:{cn}|{kn}|{shp}", lambda: getattr(v, cn).from_(arr, un), [], "int", check_dtype=cn not in KEEPS_INT)


def int_ops_case(ctx):
    """Operations on whole-number operands: the same as on floats."""
    import coordinax as cx
    import coordinax.ops as co
    import jax
    from coordinax.angle import Angle
    from coordinax.distance import Distance, DistanceModulus, Parallax
    from coordinax.frames import ICRS, Galactocentric
    from plum import convert
    u, v = G.U(), G.vecs()
    jn = lambda x: x if isinstance(x, (int, float)) else jax.numpy.asarray(x)  # (numpy takes over when it stands on the left)
    C = {d: getattr(v, f"CartesianPos{d}D") for d in (1, 2, 3)}
    progs = {
        "norm": lambda c: C[3].from_(c([1, 2, 2]), "kpc").norm(),
        "add": lambda c: C[3].from_(c([1, 2, 2]), "kpc") + C[3].from_(c([4, 5, 6]), "pc"),
        "sub-spherical": lambda c: v.SphericalPos.from_(C[3].from_(c([1, 2, 2]), "kpc")) - C[3].from_(c([4, 5, 6]), "kpc"),
        "smul": lambda c: jn(c(3)) * C[3].from_(c([1, 2, 2]), "kpc"),
        "div": lambda c: C[3].from_(c([1, 2, 2]), "kpc") / c(4),
        "sph-smul": lambda c: jn(c(3)) * v.SphericalPos(r=u.Quantity(c(2), "kpc"), theta=u.Quantity(c(1), "rad"), phi=u.Quantity(c(2), "rad")),
        "to-spherical": lambda c: C[3].from_(c([1, 2, 2]), "kpc").represent_as(v.SphericalPos),
        "to-prolate": lambda c: C[3].from_(c([1, 2, 2]), "kpc").represent_as(v.ProlateSpheroidalPos, Delta=u.Quantity(c(2), "kpc")),
        "vel": lambda c: v.CartesianVel3D.from_(c([1, 2, 2]), "km/s").represent_as(v.LonCosLatSphericalVel, C[3].from_(c([1, 2, 2]), "kpc")),
        "rot": lambda c: co.GalileanRotation(np.asarray(c([[0, -1, 0], [1, 0, 0], [0, 0, 1]])))(C[3].from_(c([1, 2, 2]), "kpc")),
        "rot-q": lambda c: co.GalileanRotation(np.asarray(c([[0, -1, 0], [1, 0, 0], [0, 0, 1]])))(u.Quantity(c([1, 2, 2]), "kpc")),
        "translate": lambda c: co.GalileanSpatialTranslation.from_(u.Quantity(c([1, 2, 3]), "kpc"))(C[3].from_(c([1, 2, 2]), "pc")),
        "translate-list": lambda c: co.GalileanSpatialTranslation.from_(c([1, 2, 3]), "kpc")(C[3].from_(c([1, 2, 2]), "kpc")),
        "boost": lambda c: co.GalileanBoost.from_(u.Quantity(c([10, 20, 30]), "km/s"))(C[3].from_(c([1, 2, 2]), "kpc"), u.Quantity(c(2), "Gyr")),
        "sttrans": lambda c: co.GalileanTranslation.from_(u.Quantity(c([1, 2, 3, 4]), "kpc"))(v.FourVector.from_(u.Quantity(c([5, 6, 7, 8]), "kpc"))),
        "galilean": lambda c: co.GalileanOperator(translation=u.Quantity(c([1, 2, 3, 4]), "kpc"), velocity=u.Quantity(c([1, 2, 3]), "km/s"))(
            C[3].from_(c([1, 2, 2]), "kpc"), u.Quantity(c(3), "Myr")),
        "simplify": lambda c: (co.GalileanSpatialTranslation.from_(u.Quantity(c([1, 2, 3]), "kpc")) | co.GalileanSpatialTranslation.from_(
            u.Quantity(c([4, 5, 6]), "kpc"))).simplify(),
        "frame": lambda c: ICRS().transform_op(Galactocentric())(C[3].from_(c([1, 2, 2]), "kpc"), v.CartesianVel3D.from_(c([10, 20, 30]), "km/s")),
        "frame-roll": lambda c: ICRS().transform_op(Galactocentric(roll=u.Quantity(c(30), "deg"), z_sun=u.Quantity(c(25), "pc"), galcen_v_sun=u.Quantity(
            c([11, 245, 7]), "km/s")))(C[3].from_(c([1, 2, 2]), "kpc"), v.CartesianVel3D.from_(c([10, 20, 30]), "km/s")),
        "four": lambda c: v.FourVector.from_(u.Quantity(c([1, 2, 3, 4]), "kpc")),
        "four-norm": lambda c: v.FourVector(t=u.Quantity(c(1), "Gyr"), q=u.Quantity(c([2, 3, 4]), "kpc"), c=u.Quantity(c(1), "kpc/Myr")).norm(),
        "four-add": lambda c: v.FourVector(t=u.Quantity(c(1), "Gyr"), q=u.Quantity(c([2, 3, 4]), "kpc")) + v.FourVector.from_(u.Quantity(c([1, 2, 3, 4]), "kpc")),
        "space": lambda c: cx.Space(length=C[3].from_(c([1, 2, 2]), "kpc"), speed=v.CartesianVel3D.from_(c([1, 2, 3]), "km/s")).represent_as(v.CylindricalPos),
        "poincare": lambda c: cx.Space(length=C[3].from_(c([1, 2, 2]), "kpc"), speed=v.CartesianVel3D.from_(c([-1, 2, 3]), "km/s")).represent_as(v.PoincarePolarVector),
        "vel-time": lambda c: v.CartesianVel3D.from_(c([1, 2, 3]), "km/s") * u.Quantity(c(2), "Myr"),
        "acc-time": lambda c: v.CartesianAcc3D.from_(c([1, 2, 3]), "km/s2") * u.Quantity(c(2), "s"),
        "toq": lambda c: convert(C[3].from_(c([1, 2, 3]), "kpc"), u.Quantity),
        "uconvert": lambda c: C[3].from_(c([1, 2, 3]), "kpc").uconvert({u.dimension("length"): "pc"}),
        "distmod": lambda c: Distance(c(10), "kpc").distance_modulus,
        "parallax": lambda c: Distance(c(10), "kpc").parallax,
        "modulus-distance": lambda c: Distance.from_(u.Quantity(c(15), "mag")),
        "parallax-distance": lambda c: Distance.from_(u.Quantity(c(2), "mas")),
        "lonlat-parallax": lambda c: v.LonLatSphericalPos(lon=u.Quantity(c(40), "deg"), lat=u.Quantity(c(-10), "deg"), distance=Parallax(c(2), "mas")),
        "lonlat-modulus": lambda c: v.LonLatSphericalPos(lon=u.Quantity(c(40), "deg"), lat=u.Quantity(c(-10), "deg"), distance=DistanceModulus(c(12), "mag")),
        "angle-sum": lambda c: Angle(c(400), "deg") + u.Quantity(c(2), "deg"),
        "dim": lambda c: C[3].from_(c([1, 2, 2]), "kpc").represent_as(v.PolarPos),
        "lift": lambda c: C[2].from_(c([1, 2]), "kpc").represent_as(v.CylindricalPos, z=u.Quantity(c(3), "kpc")),
        "eq": lambda c: C[3].from_(c([1, 2, 2]), "kpc") == C[3].from_(c([1000, 2000, 2000]), "pc"),
        "wrap-sph": lambda c: v.SphericalPos.from_(r=u.Quantity(c(2), "kpc"), theta=u.Quantity(c(200), "deg"), phi=u.Quantity(c(-30), "deg")),
    }
    skip_dtype = {"eq"}
    conv = {"float": lambda x: [float(y) if not isinstance(y, list) else [float(z) for z in y] for y in x] if isinstance(x, list) else float(x),
            "int": lambda x: x, "numpy-int": lambda x: np.asarray(x), "numpy-f32": lambda x: np.asarray(x, dtype=np.float32)}
    for n, f in progs.items():
        outs = {}
        for cn, c in conv.items():
            raw = run_one(ctx, f"intop:{n}|{cn}", lambda: f(c), [], "int", check_dtype=False)
            outs[cn] = raw
        if outs["float"] is None:
            ctx.violation(f"intop:{n}:float", str(ctx.journal[f"intop:{n}|float|int"]), config=LABEL[ctx.mode])
            continue
        ref = P.phys(outs["float"])
        for cn in ("int", "numpy-int", "numpy-f32"):
            if outs[cn] is None:
                e = ctx.journal[f"intop:{n}|{cn}|int"]["error"]
                ctx.violation(f"intop:{n}:{cn}", f"fails on whole numbers: {e}", config=LABEL[ctx.mode])
                continue
            P.compare(ctx, {p: (t, np.asarray(a, dtype=float)) if np.asarray(a).dtype.kind in "iuf" else (t, a) for p, (t, a) in P.phys(outs[cn]).items()}, ref,
                      2e-5 if ctx.mode > 1 or cn == "numpy-f32" else 1e-12, f"intop:{n}:value:{cn}", config=LABEL[ctx.mode])


def mixed_case(ctx):
    """Batch shapes that differ between operands; empty and single batches."""
    import coordinax as cx
    import coordinax.ops as co
    from plum import convert
    u, v = G.U(), G.vecs()
    import jax.numpy as jn
    s = P.Slots(ctx.rng, (), None)

    def pos(name, shape, k):
        return s.pos(name, k, shape=shape)
    fam = ["CartesianPos3D", "SphericalPos", "CylindricalPos", "LonLatSphericalPos"]
    pairs = [((), (3,)), ((3,), ()), ((1,), (3,)), ((3,), (1,)), ((2, 1), (1, 3)), ((0,), ()), ((), (0,)), ((2, 3), ())]
    if ctx.quick():
        pairs = [pairs[i] for i in ctx.rng.permutation(8)[:3]]
    for sa, sb in pairs:
        for i, A in enumerate(fam):
            b = fam[(i + 1) % 4]
            x, y = pos(A, sa, "a"), pos(b, sb, "b")
            for on, f in (("+", lambda p, q: p + q), ("-", lambda p, q: p - q), ("*", lambda p, q: p * q)):
                run_one(ctx, f"mixed:{A}{on}{b}|{sa}{sb}", f, [x, y], "eager", check_dtype=False)
        n = np.prod(sa, dtype=int)
        x = pos("CartesianPos3D", sa, "a")
        run_one(ctx, f"mixed:smul|{sa}{sb}", lambda p: jn.ones(sb) * 2.0 * p, [x], "eager", check_dtype=False)
        run_one(ctx, f"mixed:muls|{sa}{sb}", lambda p: p * (np.ones(sb) * 2.0), [x], "eager", check_dtype=False)
        run_one(ctx, f"mixed:four|{sa}{sb}", lambda p: v.FourVector(t=u.Quantity(np.ones(sb), "Myr"), q=p), [x], "eager", check_dtype=False)
        run_one(ctx, f"mixed:time|{sa}{sb}", lambda p: v.CartesianVel3D.from_(convert(p, u.Quantity) / u.Quantity(1.0, "Myr")) * u.Quantity(np.ones(sb), "Myr"), [x], "eager",
                check_dtype=False)
        for tn in ("SphericalPos", "CartesianPos2D", "PolarPos", "ProlateSpheroidalPos", "RadialPos", "CartesianPos1D"):
            run_one(ctx, f"mixed:rep:{tn}|{sa}{sb}", lambda p: p.represent_as(getattr(v, tn), **({"Delta": u.Quantity(0.4, "kpc")} if "Prol" in tn else {})), [x], "eager")
        for sh in (lambda p: p.flatten(), lambda p: p.reshape(-1) if n else p.ravel() if hasattr(p, "ravel") else p, lambda p: p.T, lambda p: p[None], lambda p: p[..., None]):
            run_one(ctx, f"mixed:shape{sh.__code__.co_firstlineno, sh.__code__.co_consts, sh.__code__.co_names}|{sa}{sb}", sh, [x], "eager", check_dtype=False)
        for on, o in (("rot", co.GalileanRotation(np.eye(3)[[1, 2, 0]])), ("tr", co.GalileanSpatialTranslation.from_(u.Quantity([1.0, 2, 3], "kpc"))),
                      ("boost", co.GalileanBoost.from_(u.Quantity([1.0, 2, 3], "km/s")))):
            run_one(ctx, f"mixed:op:{on}|{sa}{sb}", lambda p: o(p, u.Quantity(np.ones(sb), "Myr")), [x], "eager", check_dtype=False)


def classes_case(ctx):
    u, v = G.U(), G.vecs()
    # every class alone: construction, conversion to itself, negation, repr, arithmetic with itself
    for name in list(B.FIELDS):
        shapes = [(), (1,), (0,), (2, 3)]
        if ctx.quick():
            shapes = [(), shapes[1 + int(ctx.rng.integers(3))]]
        for shp in shapes:
            vals = B.sane(np.random.default_rng([ctx.seed, len(name)]), name, shp)
            mk = lambda: B.build(name, vals, {k: B.unit_of(name, k) for k in vals})
            x = run_one(ctx, f"class:{name}|{shp}", mk, [], "eager", check_dtype=name not in KEEPS_INT)
            if x is None:
                continue
            for on, f in (("str", lambda p: str(type(repr(p)))), ("eq", lambda p: p == p), ("neg", lambda p: -p), ("plus", lambda p: p + p), ("minus", lambda p: p - p),
                          ("twice", lambda p: 2 * p), ("half", lambda p: p / 2), ("norm", lambda p: p.norm()), ("flat", lambda p: p.flatten()), ("len", lambda p: len(p)),
                          ("idx", lambda p: p[..., None]), ("asdict", lambda p: dict(p.asdict()) if hasattr(p, "asdict") else 0), ("uconv", lambda p: p.uconvert(u.unitsystem("pc", "yr", "solMass", "deg"))),
                          ("iter", lambda p: [type(z).__name__ for z in p]), ("shape", lambda p: [p.shape, p.ndim, p.size])):
                if on in ("str", "iter"):
                    def g(p, f=f):
                        return np.asarray(len(f(p)))
                else:
                    g = f
                run_one(ctx, f"class:{name}:{on}|{shp}", g, [x], "eager", check_dtype=False)


def cases(tier):
    n = 24
    return [("mixed", mixed_case), ("classes", classes_case), ("int", int_case), ("int-ops", int_ops_case)] + [(f"library:{i}", library_case(i, n)) for i in range(n)]


# ------------------------------------------------------------------------------------------ the offline checker
def ledger(journals):
    out = {}
    for m, js in journals.items():
        d = out.setdefault(m, {})
        for j in js:
            d.update(j)
    return out


def tag_dim(tag):
    return tag.split("|")[1] if "|" in tag and tag.count("|") >= 2 else tag


def same(ctx, key, a, b, rel, what, la, lb):
    """Judge two journal entries of one run in two configurations."""
    mech = f"{what}:{key.split('|')[0]}"
    kind = key.rsplit("|", 1)[1]
    w = dict(run=key, configs=[la, lb])
    ea, eb = a.get("error"), b.get("error")
    if (ea is None) != (eb is None):
        ctx.violation(mech + ":failure", f"{la}: {ea or 'ok'} / {lb}: {eb or 'ok'}", **w)
        return
    ctx.check(a["warnings"] == b["warnings"], mech + ":warnings", f"{la}: {a['warnings']} / {lb}: {b['warnings']}", **w)
    if ea is not None:
        return
    A, Bv = {r[0]: r for r in a["value"]}, {r[0]: r for r in b["value"]}
    if set(A) != set(Bv):
        ctx.violation(mech + ":structure", f"{sorted(set(A) ^ set(Bv))[:5]}", **w)
        return
    ctx.check(P.same_units(a["units"], b["units"]), mech + ":units", f"{a['units']} / {b['units']}", **w)
    scale = {}
    for rec in (a, b):
        for k, z in rec["scale"].items():
            scale[k] = max(scale.get(k, 0.0), z)
    for r in A.values():
        z = [abs(t) for t in r[4] if np.isfinite(t)]
        k = tag_dim(r[1])
        scale[k] = max(scale.get(k, 0.0), max(z, default=0.0))
    for p, ra in A.items():
        rb = Bv[p]
        if not ctx.check(ra[1:4] == rb[1:4], mech + ":type", f"{p}: {ra[1:4]} / {rb[1:4]}", **w):
            continue
        x, y = np.asarray(ra[4], dtype=float), np.asarray(rb[4], dtype=float)
        if ra[3] == "b":
            ctx.check(np.array_equal(x, y), mech + ":value", f"{p}: {x} / {y}", **w)
            continue
        if ra[1].endswith("azimuth"):
            d = (y - x + np.pi) % (2 * np.pi) - np.pi
            y = x + d
        k = tag_dim(ra[1])
        S = max(scale.get(k, 0.0), 1.0 if "rad" in k else 0.0)
        ctx.close(y, x, rel * S + 1e-300, mech + ":value", f"{p} ({la} vs {lb})", **w)


LOOSE = ("Prol", "frame:", "acc", "poincare")


def merge(ctx, journals):
    L = ledger(journals)
    if len(L) < 4:
        ctx.violation("offline:missing", f"journals of {sorted(L)} only")
        return
    keys = set(L[0])
    for m in (1, 2, 3):
        for k in sorted(keys ^ set(L[m]))[:5]:
            ctx.violation("offline:missing", f"{k} ran in only one of {LABEL[0]}, {LABEL[m]}")
    for k in sorted(keys):
        if any(k not in L[m] for m in L):
            continue
        for a, b, rel in ((0, 1, 1e-13), (2, 3, 2e-6)):
            ctx.ev("compare:checker")
            ctx.distinct(k, a, b)
            same(ctx, k, L[a][k], L[b][k], rel, "checker", LABEL[a], LABEL[b])
        ctx.ev("compare:width")
        same(ctx, k, L[0][k], L[2][k], 3e-3 if any(t in k for t in LOOSE) else 5e-5, "width", LABEL[0], LABEL[2])
        for m in (1, 3):  # a failure in every configuration is not this property's concern, but must be the library's own
            pass


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

"""C25: operations are pure: no operand, history or thread affects a result."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import dataclasses
import gc
import hashlib
import threading
import time
import warnings
import numpy as np
from mon import model as M, gen as G, runtime as R, build as B, programs as P

PROP = "C25"
RULE = ("a call is one public program on one set of operands (several sets per program: other values in other units, a twin differing by 1e-7 "
        "in every number, the same numbers in other units, another float width, other operator and frame parameters). Every call is executed "
        "in separate processes in four histories (one order, the reverse order, shuffled with jit/vmap/grad/failing calls mixed in, and from "
        "four threads at once with delays injected between the library's lines) and repeated within each process; an offline checker compares "
        "the recorded digests (every byte, dtype, unit and type of the result, and the warnings). Operands are digested before and after. "
        "distinct = (program, operand set, history)")
ASSUMPTIONS = ["one CPU device, XLA deterministic for equal programs", "private attributes and object.__setattr__ are not public operations",
               "the first use of each generic function happens before threads start (plum's lazy method registration is outside coordinax)"]
REQUIRED = {"call": 1000, "repeat": 150, "operand:unchanged": 1000, "threaded-call": 400, "overlap": 300, "immutable": 250,
            "offline:compared": 500, "noise": 60, "default:unchanged": 20, "container:unchanged": 20}
_THOROUGH = os.environ.get("VERIF_TIER", "quick").startswith("t") or "thorough" in sys.argv
# quick: the reverse order carries the noise, and two queues share the threaded history (even / odd chunks)
NAMES = ["fwd", "rev", "mix", "thr"] if _THOROUGH else ["fwd", "mix", "thr", "thr"]
MODES = [{"C25": n} for n in NAMES]



# ------------------------------------------------------------------------------------------ digests
def leaf_bytes(x, acc, path):
    """Append everything observable about a result (or operand), recursively."""
    import jax
    if isinstance(x, (tuple, list)):
        acc.append(f"{path}:{type(x).__name__}{len(x)}")
        for i, y in enumerate(x):
            leaf_bytes(y, acc, f"{path}[{i}]")
    elif isinstance(x, dict):
        acc.append(f"{path}:{type(x).__name__}{sorted(map(str, x))}")
        for k in x:
            leaf_bytes(x[k], acc, f"{path}.{k}")
    elif isinstance(x, (jax.Array, np.ndarray, np.generic)):
        a = np.asarray(x)
        acc.append(f"{path}:{'np' if isinstance(x, np.ndarray) else 'arr'} {a.dtype} {a.shape} weak={getattr(x, 'weak_type', None)}")
        acc.append(np.ascontiguousarray(a).tobytes())
    elif isinstance(x, (str, bytes, int, float, complex, bool, type(None))):
        acc.append(f"{path}:{x!r}")
    elif hasattr(x, "__dataclass_fields__"):
        acc.append(f"{path}:{type(x).__name__}")
        for f in dataclasses.fields(x):
            leaf_bytes(getattr(x, f.name), acc, f"{path}.{f.name}")
    elif type(x).__name__ == "Space" or hasattr(x, "keys"):
        acc.append(f"{path}:{type(x).__name__}")
        for k in x.keys():
            leaf_bytes(x[k], acc, f"{path}<{k}>")
    elif hasattr(x, "decompose") and hasattr(x, "physical_type"):
        f, can = P.std_of(x)  # kpc / Gyr and pc / Myr are one unit; which spelling appears is astropy's affair
        acc.append(f"{path}:unit:{f:.12g} {can}")
    else:  # dtypes, types
        acc.append(f"{path}:{type(x).__name__}:{x}")


def digest(x):
    acc = []
    leaf_bytes(x, acc, "")
    h = hashlib.blake2b(digest_size=10)
    for a in acc:
        h.update(a if isinstance(a, bytes) else a.encode())
    return h.hexdigest()


def brief(x):
    try:
        acc = []
        leaf_bytes(x, acc, "")
        out = []
        for i, a in enumerate(acc):
            if isinstance(a, bytes):
                dt = acc[i - 1].split(" ")[1]
                out.append(np.array2string(np.frombuffer(a, dtype=dt)[:3], precision=12))
            elif "unit" in a or ":arr" not in a:
                out.append(a)
        return " ".join(out)[:240]
    except Exception as e:  # noqa: BLE001
        return repr(e)[:100]


_TL = threading.local()


def _hook():
    """Warnings recorded per thread (the stdlib recorder swaps global state, which is not thread safe)."""
    warnings.simplefilter("always")

    def show(message, category, filename, lineno, file=None, line=None):
        rec = getattr(_TL, "rec", None)
        if rec is not None and issubclass(category, UserWarning) and "coordinax" in getattr(category, "__module__", ""):
            rec.append(category.__name__)
    warnings.showwarning = show


def perform(fn, ops):
    _TL.rec = []
    out = fn(*ops)
    return out, digest(out) + "|" + ",".join(_TL.rec)


# ------------------------------------------------------------------------------------------ programs with varied parameters
def extra():
    """Programs whose parameters (frame, operator, matrix, focal length, unit system) vary from call to call."""
    import coordinax as cx
    import coordinax.ops as co
    import unxt as u
    from plum import convert
    from coordinax.frames import ICRS, Galactocentric
    from coordinax.distance import Distance
    from coordinax.angle import Angle
    import astropy.coordinates as apyc
    v = G.vecs()
    out = []

    def add(name, slots, fn, **kw):
        out.append(P.Prog("x:" + name, slots, fn, **{**dict(vmap=False, batch=False, jit=False), **kw}))

    sc = lambda lo, hi: (lambda s: float(s.rng.uniform(lo, hi)))
    fr = [lambda s: Galactocentric(), sc(-40, 40), sc(-30, 30), sc(200, 260)]
    pos = lambda n, k=0: (lambda s: s.pos(n, k, shape=()))
    vel = lambda n, k=0: (lambda s: s.vel(n, k))
    names = ["roll", "z_sun", "galcen_v_sun", "galcen"]

    def frame(kind, x):
        kw = {"roll": lambda: u.Quantity(x, "deg"), "z_sun": lambda: u.Quantity(20 + x, "pc"),
              "galcen_v_sun": lambda: v.CartesianVel3D.from_(u.Quantity([12.9, 245 + x, 7.7], "km/s")),
              "galcen": lambda: v.LonLatSphericalPos(lon=Angle(266.4 + x / 100, "deg"), lat=Angle(-28.9 + x / 50, "deg"), distance=Distance(8.1 + x / 200, "kpc"))}
        return Galactocentric(**{kind: kw[kind]()})

    for kind in names:
        mk = (lambda kind: lambda x: frame(kind, x))(kind)
        add(f"frame:icrs->gcf:{kind}", [sc(-40, 40), pos("CartesianPos3D"), vel("CartesianVel3D")], (lambda mk: lambda x, q, p: ICRS().transform_op(mk(x))(q, p))(mk))
        add(f"frame:gcf->icrs:{kind}", [sc(-40, 40), pos("CartesianPos3D"), vel("CartesianVel3D")], (lambda mk: lambda x, q, p: mk(x).transform_op(ICRS())(q, p))(mk))
        add(f"frame:gcf->gcf:{kind}", [sc(-40, 40), sc(-40, 40), pos("CartesianPos3D"), vel("CartesianVel3D")],
            (lambda mk: lambda x, y, q, p: mk(x).transform_op(mk(y))(q, p))(mk))
        add(f"frame:op:{kind}", [sc(-40, 40)], (lambda mk: lambda x: ICRS().transform_op(mk(x)))(mk))
        add(f"frame:inv:{kind}", [sc(-40, 40), pos("SphericalPos"), vel("SphericalVel")], (lambda mk: lambda x, q, p: ICRS().transform_op(mk(x)).inverse(q, p))(mk))
    # operators from changing parameters
    mat = lambda s: np.asarray(P.rotation_matrix(s.rng))
    add("rot:matrix", [mat, pos("CartesianPos3D")], lambda m, q: co.GalileanRotation(m)(q))
    add("rot:inverse", [mat, pos("CartesianPos3D")], lambda m, q: co.GalileanRotation(m).inverse(q))
    for ax in ("x", "y", "z", "zyx"):
        add(f"rot:euler:{ax}", [(lambda n: lambda s: s.q(s.rng.uniform(-3, 3, n) if n else s.rng.uniform(-3, 3), "rad", ["rad", "deg"]))(3 if len(ax) == 3 else 0),
                                pos("CartesianPos3D")], (lambda ax: lambda a, q: co.GalileanRotation.from_euler(ax, a)(q))(ax))
    add("rot:matmul", [mat, mat, pos("CartesianPos3D")], lambda a, b, q: (co.GalileanRotation(a) @ co.GalileanRotation(b))(q))
    add("rot:simplify", [mat, mat], lambda a, b: (co.GalileanRotation(a) | co.GalileanRotation(b)).simplify())
    add("pipe:parameters", [mat, lambda s: s.vecq(3, ()), pos("CartesianPos3D")],
        lambda m, o, q: (co.GalileanRotation(m) | co.GalileanSpatialTranslation.from_(o) | co.GalileanRotation(m))(q))
    add("galilean:parameters", [mat, lambda s: s.vecq(3, ()), lambda s: s.time(()), lambda s: s.q(s.rng.normal(size=3), "kpc/Myr", G.SPDU), pos("CartesianPos3D"), lambda s: s.time(())],
        lambda m, o, t, w, q, t2: co.GalileanOperator(rotation=co.GalileanRotation(m), translation=v.FourVector(t=t, q=v.CartesianPos3D.from_(o)), velocity=w)(q, t2))
    add("galilean:parameters:inv", [mat, lambda s: s.vecq(3, ()), lambda s: s.time(()), lambda s: s.q(s.rng.normal(size=3), "kpc/Myr", G.SPDU), pos("CartesianPos3D"), lambda s: s.time(())],
        lambda m, o, t, w, q, t2: co.GalileanOperator(rotation=co.GalileanRotation(m), translation=v.FourVector(t=t, q=v.CartesianPos3D.from_(o)), velocity=w).inverse(q, t2))
    # the same conversion with changing focal length
    add("delta:target", [sc(0.1, 0.4), pos("CartesianPos3D")], lambda d, q: q.represent_as(v.ProlateSpheroidalPos, Delta=u.Quantity(d, "kpc")))
    add("delta:vel", [sc(0.1, 0.4), pos("CartesianPos3D"), vel("CartesianVel3D")],
        lambda d, q, p: p.represent_as(v.ProlateSpheroidalVel, q, Delta=u.Quantity(d, "kpc")))
    add("delta:vel:back", [sc(0.1, 0.4), pos("CartesianPos3D"), vel("CartesianVel3D")],
        lambda d, q, p: p.represent_as(v.ProlateSpheroidalVel, q, Delta=u.Quantity(d, "kpc")).represent_as(
            v.CartesianVel3D, q.represent_as(v.ProlateSpheroidalPos, Delta=u.Quantity(d, "kpc")), Delta=u.Quantity(d, "kpc")))
    add("dim:z", [sc(0.1, 2.0), pos("PolarPos")], lambda z, q: q.represent_as(v.CylindricalPos, z=u.Quantity(z, "kpc")))
    add("unitsystem", [lambda s: s.unit(["kpc", "pc", "m", "AU"]), pos("SphericalPos")], lambda un, q: q.uconvert(u.unitsystem(un, "yr", "solMass", "deg")))
    add("four:c", [sc(0.1, 0.4), pos("CartesianPos3D"), lambda s: s.time(())],
        lambda c, q, t: (v.FourVector(t=t, q=q, c=u.Quantity(c, "kpc/Myr")).norm(), v.FourVector(t=t, q=q).norm()))
    # astropy and arrays
    for A, ap in (("CartesianPos3D", "CartesianRepresentation"), ("SphericalPos", "PhysicsSphericalRepresentation"), ("CylindricalPos", "CylindricalRepresentation"),
                  ("LonLatSphericalPos", "SphericalRepresentation")):
        def rt(q, A=A, ap=ap):
            r = convert(q, getattr(apyc, ap))
            return tuple((k, getattr(r, k).value, str(getattr(r, k).unit)) for k in r.components), convert(r, getattr(v, A))
        add(f"astropy:{A}", [pos(A)], rt)
    add("warn:dim", [pos("CartesianPos3D")], lambda q: q.represent_as(v.CartesianPos2D))
    add("repr", [pos("SphericalPos")], lambda q: (repr(q), str(q)))
    add("props", [pos("SphericalPos")], lambda q: (dict(q.units), {k: str(x) for k, x in q.dtypes.items()}, dict(q.shapes), q.shape, q.ndim, q.size))
    return out


_lib = {}


def lib():
    if not _lib:
        _lib.update({p.name: p for p in P.library() + extra()})
        if not _THOROUGH:  # slow relatives of programs that are kept
            for k in list(_lib):
                if k.startswith(("x:frame:inv", "x:frame:gcf->gcf")) and not k.endswith("roll") or k == "x:delta:vel:back":
                    del _lib[k]
    return _lib


TWIN = {"kpc": "pc", "rad": "deg", "Myr": "Gyr"}


def relabel(x):
    """The same numbers stored in other units."""
    import jax
    import unxt as u
    isq = lambda y: hasattr(y, "unit") and hasattr(y, "value")

    def one(q):
        if not isq(q):
            return q
        s = str(q.unit)
        t = s
        for a, b in TWIN.items():
            t = t.replace(a, b)
        if t == s:
            return q
        return dataclasses.replace(q, unit=u.unit(t))
    return jax.tree.map(one, x, is_leaf=isq)


def twin(x):
    import jax
    import equinox as eqx
    return jax.tree.map(lambda y: y * (1 + 1e-7) if eqx.is_inexact_array(y) else (y * (1 + 1e-7) if isinstance(y, float) else y), x)


def operand_sets(ctx, p, quick):
    """[(variant, operands)], a pure function of the seed and the program's name."""
    import zlib
    rng = lambda k: np.random.default_rng([ctx.seed, zlib.crc32(p.name.encode()), k])
    shp = (2,) if p.batch else ()
    base = P.operands(rng(0), p, shp, None)
    out = [("base", base), ("other", P.operands(rng(1), p, shp, None))]
    third = ["twin", "units", "relabel"]
    if quick:
        third = [third[(zlib.crc32(p.name.encode()) + ctx.seed) % 3]]
    if "twin" in third:
        out.append(("twin", twin(base)))
    if "relabel" in third and "Prol" not in p.name and "delta" not in p.name:
        out.append(("relabel", relabel(base)))
    elif "units" in third or "relabel" in third:
        out.append(("units", P.operands(rng(2), p, shp, rng(3))))
    if p.int_ok and not quick:
        out.append(("f32", P.operands(rng(4), p, shp, None, np.float32)))
        out.append(("deep", P.operands(rng(5), p, (2, 2) if p.batch else (), rng(6))))
    return out


# ------------------------------------------------------------------------------------------ histories
def chunk(i, n):
    names = sorted(lib())
    order = np.random.default_rng(97).permutation(len(names))
    return [names[j] for j in order[i::n]]


def noise(ctx, p, ops):
    """Other things a program does in between: compiled, mapped, differentiated, low-precision and failing calls."""
    import jax
    import equinox as eqx
    import coordinax as cx
    v = G.vecs()
    k = int(ctx.rng.integers(6))
    try:
        if k == 0 and p.jit:
            eqx.filter_jit(p.fn)(*ops)
        elif k == 1 and p.batch and p.vmap:
            jax.eval_shape(lambda *a: jax.tree.leaves(p.fn(*a)), *ops) if not ops else eqx.filter_eval_shape(p.fn, *ops)
        elif k == 2:
            with jax.experimental.disable_x64():
                p.fn(*P.operands(ctx.rng, p, (2,) if p.batch else (), None, np.float32))
        elif k == 3:
            leaves, td = jax.tree.flatten(tuple(ops))
            f = lambda *xs: [y for y in jax.tree.leaves(p.fn(*jax.tree.unflatten(td, xs))) if eqx.is_inexact_array(y)]
            jax.eval_shape(lambda xs: jax.jvp(f, xs, xs), tuple(jax.numpy.asarray(x, float) for x in leaves))
        elif k == 4:
            p.fn(*(list(ops) + [object()]))
        else:
            p.fn(*[object() for _ in ops])
    except Exception:  # noqa: BLE001  (failing calls are part of the history)
        pass
    gc.collect() if ctx.rng.random() < 0.02 else None
    ctx.ev("noise")


def defaults():
    import coordinax.ops as co
    from coordinax.frames import ICRS, Galactocentric, NoFrame
    import coordinax as cx
    import unxt as u
    v = G.vecs()
    one = u.Quantity(1.0, "kpc")
    return {"Galactocentric": digest(Galactocentric()), "ICRS": digest(ICRS()), "GalileanOperator": digest(co.GalileanOperator()),
            "FourVector.c": digest(v.FourVector(t=u.Quantity(1.0, "Myr"), q=v.CartesianPos3D(one, one, one)).c), "roll0": digest(Galactocentric.roll0),
            "Identity": digest(co.Identity())}


def history_case(i, n):
    def run(ctx):
        _hook()
        mode = NAMES[ctx.mode]
        if NAMES.count(mode) == 2 and i % 2 != ctx.mode - 2:
            return
        d0 = defaults()
        calls = []
        for nm in chunk(i, n):
            p = lib()[nm]
            for var, ops in operand_sets(ctx, p, ctx.quick()):
                if mode == "thr" and ctx.quick() and var not in ("base", "other"):
                    continue
                calls.append((nm, var, p, ops))
        if mode == "rev" or (mode == "mix" and ctx.quick()):
            calls.reverse()
        elif mode in ("mix", "thr"):
            calls = [calls[j] for j in np.random.default_rng([ctx.seed, i, 5]).permutation(len(calls))]
        before = {}
        for nm, var, p, ops in calls:
            before[nm, var] = digest(ops)
        first = {}
        if mode == "thr":
            warm(ctx)
            threads_run(ctx, calls, first)
            if ctx.quick():  # the offline checker compares with the serial histories
                return
        for nm, var, p, ops in calls:
            w = dict(program=nm, variant=var, history=mode)
            with ctx.scope(f"{nm}", **w):
                if mode == "mix" and ctx.rng.random() < (0.35 if not ctx.quick() else 0.2):
                    noise(ctx, p, ops)
                out, dg = perform(p.fn, ops)
                ctx.ev("call")
                ctx.distinct(nm, var, mode)
                if (nm, var) in first and mode == "thr":
                    ctx.check(first[nm, var] == dg.split("|")[0], f"threads:{nm}", f"result differs between threads and serial execution; serial {brief(out)}", **w)
                first[nm, var] = dg
                ctx.journal[f"{nm}|{var}"] = [dg, brief(out)]
                ctx.check(digest(ops) == before[nm, var], f"operand-modified:{nm}", "operands differ after the call", **w)
                ctx.ev("operand:unchanged")
                ctx.sample(program=nm, variant=var, history=mode, digest=dg, result=brief(out))
        # again, in another order, in the same process
        for j in ctx.rng.permutation(len(calls)):
            nm, var, p, ops = calls[j]
            if ctx.quick() and (var != "base" or mode != "fwd"):
                continue
            w = dict(program=nm, variant=var, history=mode)
            if (nm, var) not in first:
                continue
            with ctx.scope(f"repeat:{nm}", **w):
                out, dg = perform(p.fn, ops)
                ctx.check(dg == first[nm, var], f"repeat:{nm}", f"a repeated call gives another result: {brief(out)} != {ctx.journal.get(f'{nm}|{var}', ['', ''])[1]}", **w)
                ctx.ev("repeat")
        d1 = defaults()
        for k in d0:
            ctx.check(d0[k] == d1[k], f"default-altered:{k}", "a default object changed", history=mode)
            ctx.ev("default:unchanged")
        ctx.journal[f"defaults:{i}"] = [repr(sorted(d1.items())), ""]
    return run


_warm = []


def warm(ctx):
    """Resolve plum's pending registrations once: its lazy registration is not part of coordinax."""
    if _warm:
        return
    _warm.append(1)
    for nm in ("pos:CartesianPos3D->SphericalPos", "vel:CartesianVel3D->SphericalVel", "add:CartesianPos3D+CartesianPos3D", "op:galilean:CartesianPos3D,t",
               "frame:icrs->gcf", "toq:SphericalPos", "space:rep", "uconvert:SphericalPos", "op:simplify", "fromq:CartesianPos3D", "poincare", "four:add",
               "dist:parallax", "angle:add", "normalize", "x:astropy:CartesianPos3D", "acctime:CartesianAcc3D", "acc:CartesianAcc3D->SphericalAcc",
               "smul:SphericalPos", "eq:other", "wrap:Spherical", "x:dim:z"):
        p = lib()[nm]
        p.fn(*P.operands(np.random.default_rng(0), p, (3,) if p.batch else (), None))


def threads_run(ctx, calls, first, nthreads=4):
    """Every call in every thread's own order, with the operands shared and pauses injected between library lines."""
    src = os.path.join(R.REPO, "src", "coordinax") + os.sep
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-5)
    log, res, errs = [], {}, []
    bar = threading.Barrier(nthreads)
    per = len(calls)

    def work(t):
        rng = np.random.default_rng([ctx.seed, t, ctx.mode])
        local = rng.random(4096)
        st = [0]

        def line(frame, event, arg):
            if event == "line":
                st[0] = (st[0] + 1) & 4095
                if local[st[0]] < 0.004:
                    time.sleep(0.0001)
                elif local[st[0]] < 0.04:
                    time.sleep(0)
            return line

        def tracer(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(src) else None

        order = rng.permutation(per)
        if ctx.quick():
            order = order[: max(8, int(per * 0.45))]
        bar.wait()
        sys.settrace(tracer)
        try:
            for j in order:
                nm, var, p, ops = calls[j]
                log.append((t, j, "b"))
                try:
                    out, dg = perform(p.fn, ops)
                    dg = dg.split("|")[0]  # the standard library's warning filters are not thread safe
                    res.setdefault((nm, var), []).append((dg, t, brief(out)))
                except Exception as e:  # noqa: BLE001
                    errs.append((nm, var, t, f"{type(e).__name__}: {str(e)[:300]}"))
                log.append((t, j, "e"))
        finally:
            sys.settrace(None)

    ts = [threading.Thread(target=work, args=(t,)) for t in range(nthreads)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    sys.setswitchinterval(old)
    for nm, var, t, e in errs:
        ctx.violation(f"threads:{nm}:raised", e, program=nm, variant=var, thread=t)
    for (nm, var), rs in res.items():
        ctx.ev("threaded-call", len(rs))
        ctx.check(len({r[0] for r in rs}) == 1, f"threads:{nm}", f"threads disagree: {rs[:6]}", program=nm, variant=var)
        first[nm, var] = rs[0][0]
        ctx.journal[f"{nm}|{var}"] = [rs[0][0] + "|?", rs[0][2]]
        ctx.distinct(nm, var, "thr")
    # what was actually interleaved: calls of different threads that were in progress together
    open_, pairs = {}, set()
    for t, j, e in log:
        if e == "b":
            for t2, j2 in open_.items():
                if t2 != t:
                    pairs.add((calls[j][0], calls[j2][0]) if calls[j][0] < calls[j2][0] else (calls[j2][0], calls[j][0]))
            open_[t] = j
        else:
            open_.pop(t, None)
    ctx.ev("overlap", len(pairs))
    for a in list(pairs)[:400]:
        ctx.distinct("overlap", *a)


# ------------------------------------------------------------------------------------------ immutability
def immut_case(name):
    def run(ctx):
        import jax
        if ctx.mode:
            return
        for nm, x in objects(ctx, name):
            before = digest(x)
            fields = [f.name for f in dataclasses.fields(x)] if dataclasses.is_dataclass(x) else []
            w = dict(object=nm)
            for f in fields:
                val = getattr(x, f)
                ctx.must_raise(lambda: setattr(x, f, val), f"setattr:{nm}", msg=f"assigning to {f}", **w)
                ctx.must_raise(lambda: delattr(x, f), f"delattr:{nm}", msg=f"deleting {f}", **w)
                ctx.ev("immutable", 2)
            ctx.must_raise(lambda: setattr(x, "brand_new", 1), f"setattr:{nm}", msg="assigning to a new attribute", **w)
            ctx.ev("immutable")

            def put(key):
                x[key] = x
            for key in (0, "length", slice(None), ...):
                ctx.must_raise(lambda: put(key), f"setitem:{nm}", msg=f"assigning to item {key!r}", **w)
                ctx.ev("immutable")

            def rm(key):
                del x[key]
            for key in (0, "length"):
                ctx.must_raise(lambda: rm(key), f"delitem:{nm}", msg=f"deleting item {key!r}", **w)
            # in-place operators must rebind, not modify
            for op in ("+=", "-=", "*=", "/=", "|="):
                ns = {"x": x, "y": 2.0 if op in ("*=", "/=") else x}
                try:
                    exec(f"z = x; z {op} y", ns)
                except Exception:  # noqa: BLE001  (not every class supports every operator)
                    pass
                ctx.ev("immutable")
                ctx.check(digest(x) == before, f"inplace:{nm}", f"'{op}' modified the object it was applied to", **w)
            # derived containers are the caller's own
            for acc in ("units", "dtypes", "shapes", "devices", "sizes"):
                try:
                    d = getattr(x, acc)
                except Exception:  # noqa: BLE001
                    continue
                if isinstance(d, dict):
                    d.clear()
                    d["x"] = "junk"
                    ctx.ev("container:unchanged")
                    ctx.check(getattr(x, acc) != d, f"container:{nm}", f"editing the returned {acc} changed the object", **w)
            if hasattr(x, "asdict"):
                d = x.asdict()
                d.clear()
                ctx.check(len(x.asdict()) > 0, f"container:{nm}", "editing asdict() changed the object", **w)
                ctx.ev("container:unchanged")
            if dataclasses.is_dataclass(x) and fields and nm != "Space":
                try:
                    y = dataclasses.replace(x)
                    ctx.check(digest(y) == before, f"replace:{nm}", "replace() without changes differs", **w)
                except Exception:  # noqa: BLE001
                    pass
            leaves, td = jax.tree.flatten(x)
            leaves[:] = [None] * len(leaves)
            import copy, pickle
            for f in (copy.copy, copy.deepcopy, lambda z: pickle.loads(pickle.dumps(z))):
                with ctx.scope(f"copy:{nm}", **w):
                    y = f(x)
                    ctx.check(digest(y) == before, f"copy:{nm}", "a copy differs", **w)
                    ctx.ev("copy")
            ctx.check(digest(x) == before, f"modified:{nm}", "object changed", **w)
            ctx.distinct("immutable", nm)
    return run


def objects(ctx, group):
    import coordinax as cx
    import coordinax.ops as co
    import unxt as u
    from coordinax.frames import ICRS, Galactocentric, NoFrame
    v = G.vecs()
    out = []
    s = P.Slots(ctx.rng, (2,), None)
    if group == "vectors":
        for n in list(B.FIELDS):
            try:
                vals = B.sane(ctx.rng, n, (2,))
                out.append((n, B.build(n, vals, {k: B.unit_of(n, k) for k in vals})))
            except KeyError:
                continue
        for n, (f, o) in B.ND.items():
            out.append((n, getattr(v, n)(u.Quantity(ctx.rng.normal(size=(2, 4)), ["kpc", "kpc/Myr", "kpc/Myr2"][o]))))
    else:
        q, p = s.pos("CartesianPos3D"), s.vel("CartesianVel3D")
        out.append(("FourVector", v.FourVector(t=s.time(), q=q)))
        out.append(("Space", cx.Space(length=q, speed=p)))
        out.append(("Galactocentric", Galactocentric()))
        out.append(("ICRS", ICRS()))
        Rm = P.rotation_matrix(ctx.rng)
        out.append(("GalileanRotation", co.GalileanRotation(Rm)))
        out.append(("GalileanSpatialTranslation", co.GalileanSpatialTranslation.from_(s.vecq(3, ()))))
        out.append(("GalileanBoost", co.GalileanBoost.from_(s.q(ctx.rng.normal(size=3), "kpc/Myr", ["kpc/Myr"]))))
        out.append(("GalileanTranslation", co.GalileanTranslation(v.FourVector(t=s.time(()), q=v.CartesianPos3D.from_(s.vecq(3, ()))))))
        out.append(("GalileanOperator", co.GalileanOperator(rotation=co.GalileanRotation(Rm))))
        out.append(("Pipe", co.GalileanRotation(Rm) | co.GalileanSpatialTranslation.from_(s.vecq(3, ()))))
        out.append(("Identity", co.Identity()))
        out.append(("Poincare", cx.Space(length=q, speed=p).represent_as(v.PoincarePolarVector)))
        from coordinax.distance import Distance, DistanceModulus, Parallax
        from coordinax.angle import Angle
        out.append(("Distance", Distance(2.0, "kpc")))
        out.append(("Parallax", Parallax(2.0, "mas")))
        out.append(("DistanceModulus", DistanceModulus(2.0, "mag")))
        out.append(("Angle", Angle(np.ones(2), "rad")))
    return out


def containers(ctx):
    """Mappings, lists and arrays handed to the library come back as they were."""
    import coordinax as cx
    import coordinax.ops as co
    import unxt as u
    import jax.numpy as jnp
    v = G.vecs()
    if ctx.mode:
        return
    for rep in range(2 if ctx.quick() else 10):
        s = P.Slots(ctx.rng, (2,), None)
        q = s.pos("SphericalPos")
        p = s.vel("SphericalVel")
        x = s.pos("CartesianPos3D", 1)

        def case(nm, arg, fn):
            import copy
            b = repr(arg) if not isinstance(arg, np.ndarray) else arg.tobytes()
            with ctx.scope(f"container:{nm}"):
                o1 = fn(arg)
                d1 = digest(o1)
                a = repr(arg) if not isinstance(arg, np.ndarray) else arg.tobytes()
                ctx.check(a == b, f"container-modified:{nm}", f"{b} -> {a}")
                ctx.check(digest(fn(arg)) == d1, f"container-repeat:{nm}", "second use of the same argument differs")
                # editing the argument afterwards has no effect on what was made from it
                if isinstance(arg, dict):
                    arg.clear()
                elif isinstance(arg, list):
                    arg.clear()
                ctx.check(digest(o1) == d1, f"container-aliased:{nm}", "editing the argument afterwards changed the object")
                ctx.ev("container:unchanged")
                ctx.distinct("container", nm)

        case("uconvert:names", {"length": "pc", "angle": "deg"}, lambda m: q.uconvert(m))
        case("uconvert:dims", {u.dimension("length"): "pc", u.dimension("angle"): "deg", u.dimension("speed"): "km/s"}, lambda m: q.uconvert(m))
        case("from:mapping", {"x": u.Quantity(1.0, "kpc"), "y": u.Quantity(2.0, "kpc"), "z": u.Quantity(3.0, "kpc")}, lambda m: v.CartesianPos3D.from_(m))
        case("from:list", [1.0, 2.0, 3.0], lambda m: v.CartesianPos3D.from_(m, "kpc"))
        case("from:array", ctx.rng.normal(size=(4, 3)), lambda m: v.CartesianPos3D.from_(m, "kpc"))
        case("vel:array", ctx.rng.normal(size=(3,)), lambda m: v.CartesianVel3D.from_(m, "km/s"))
        case("pipe:list", [co.GalileanSpatialTranslation.from_(s.vecq(3, ())), co.GalileanRotation(P.rotation_matrix(ctx.rng))],
             lambda m: co.Pipe(tuple(m)))
        case("rotation:array", P.rotation_matrix(ctx.rng), lambda m: co.GalileanRotation(m)(x))
        case("space:kwargs", {"length": x, "speed": s.vel("CartesianVel3D", 1)}, lambda m: cx.Space(**m))
        case("represent:kwargs", {"Delta": u.Quantity(0.3, "kpc")}, lambda m: x.represent_as(v.ProlateSpheroidalPos, **m))
        case("operator:mapping", {"rotation": P.rotation_matrix(ctx.rng), "velocity": u.Quantity([1.0, 2.0, 3.0], "km/s")},
             lambda m: co.GalileanOperator.from_(m) if False else co.GalileanOperator(**m))


def cases(tier):
    n = 16 if tier == "quick" else 24
    out = [(f"history:{i}", history_case(i, n)) for i in range(n)]
    out += [("immutable:vectors", immut_case("vectors")), ("immutable:others", immut_case("others")), ("containers", containers)]
    return out


def merge(ctx, journals):
    """Offline: every history recorded the same digest for the same call."""
    byc = {}
    for m, js in journals.items():
        for j in js:
            for k, (dg, br) in j.items():
                byc.setdefault(k, []).append((NAMES[m], dg, br))
    for k, rs in sorted(byc.items()):
        if len({r[0] for r in rs}) < 2:
            continue
        ctx.ev("offline:compared")
        vals = {}
        for mode, dg, br in rs:
            if dg.endswith("|?"):  # warnings not compared
                full = [d for _, d, _ in rs if d.split("|")[0] == dg[:-2]]
                dg = full[0] if full else dg
            vals.setdefault(dg, []).append((mode, br))
        nm = k.split("|")[0]
        ctx.check(len(vals) == 1, f"history:{nm}", f"the result depends on the history: { {d: v for d, v in vals.items()} }"[:900], call=k)
    ctx.ev("offline:calls", len(byc))


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

"""C12: pipes apply left to right, invert right to left, index like sequences, and simplify() keeps the action."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import model as M, gen as G, runtime as R, opsmodel as O

PROP = "C12"
RULE = ("a case composes random operators (all kinds, null and opposite ones included, nested pipes, Galilean operators) in random groupings of "
        "| and explicit Pipe(...), applies the result, its inverse and its simplification to inputs of every form the constituents accept, and "
        "compares with the composition of plain affine maps; distinct = (constituent kinds, how composed, input form)")
ASSUMPTIONS = ["boost velocities are Cartesian, translations non-Cartesian only where the library can add them",
               "null-operator recognition uses an absolute tolerance of 1e-8 in the stored unit: parameters are exactly null or above 1e-3 in it",
               "inputs are those a Pipe defines: a position, a 3D length Quantity, (position, time), a FourVector, (position, velocity)"]
REQUIRED = {"apply": 150, "inverse": 150, "simplify": 150, "structure": 40, "pairs": 49}
KINDS = ["translation", "boost", "velboost", "rotation", "sttrans", "galilean", "identity"]
NAMES = ["CartesianPos3D", "SphericalPos", "LonLatSphericalPos", "CylindricalPos", "MathSphericalPos", "ProlateSpheroidalPos"]


def null_of(rng, kind):
    z = np.zeros(3)
    return {"translation": lambda: O.translation(rng, o=z, form=G.pick(rng, ["q", "from_", "pos"])), "boost": lambda: O.boost(rng, w=z), "velboost": lambda: O.boost(rng, w=z, kind="velboost"),
            "rotation": lambda: O.rotation(rng, special="identity", form="matrix"), "sttrans": lambda: O.sttrans(rng, o=z, t0=0.0), "identity": lambda: O.identity(rng),
            "galilean": lambda: O.galilean(rng, R=np.eye(3), o=z, t0=0.0, w=z)}[kind]()


def inverse_of(op):
    """The inverse operator as another constituent."""
    lib = op.lib.inverse
    k = op.kind
    if k == "pipe":
        return O.Op("pipe", lib, parts=[inverse_of_model(p) for p in reversed(op.parts)])
    m = inverse_of_model(op)
    m.lib = lib
    return m


def inverse_of_model(op):
    neg = lambda x: None if x is None else -np.asarray(x)
    if op.kind == "pipe":
        return O.Op("pipe", None, parts=[inverse_of_model(p) for p in reversed(op.parts)])
    if op.kind == "galilean":
        a = [O.Op("rotation", None, R=op.R), O.Op("sttrans", None, o=op.o, t0=op.t0), O.Op("boost", None, w=op.w)]
        return O.Op("pipe", None, parts=[inverse_of_model(p) for p in reversed(a)])
    return O.Op(op.kind, None, R=None if op.R is None else op.R.T, o=neg(op.o), t0=-op.t0, w=neg(op.w))


def random_op(rng, kinds, prev=None):
    if prev is not None and prev.kind in kinds and prev.kind != "pipe" and rng.random() < 0.35:
        if rng.random() < 0.4 and prev.kind != "galilean":
            return inverse_of(prev)  # exactly opposite neighbour
        return O.MAKE[prev.kind](rng)  # same kind twice: simplification merges them
    k = G.pick(rng, kinds)
    if rng.random() < 0.2:
        return null_of(rng, k)
    return O.MAKE[k](rng)


def compose(rng, ops):
    """The library operator for ``ops`` in order, composed in a random grouping; (operator, flat, description).

    flat is None when grouping leaves nested pipes inside."""
    import coordinax.ops as co
    libs = [o.lib for o in ops]
    how = G.pick(rng, ["tuple", "list", "or", "or-grouped", "nested", "wrap"])
    if len(ops) < 2 and how in ("or", "or-grouped"):
        how = "tuple"
    if how == "tuple":
        return co.Pipe(tuple(libs)), True, how
    if how == "list":
        return co.Pipe(list(libs)), True, how
    if how == "wrap":
        return co.Pipe(co.Pipe(tuple(libs)) if len(libs) != 1 else libs[0]), True, how
    if how == "or":
        p = libs[0]
        for x in libs[1:]:
            p = p | x
        return p, True, how
    if how == "or-grouped":
        def grp(a):
            if len(a) == 1:
                return a[0]
            k = int(rng.integers(1, len(a)))
            return grp(a[:k]) | grp(a[k:])
        return grp(libs), True, how

    def nest(a):
        if len(a) <= 1:
            return co.Pipe(tuple(a))
        k = int(rng.integers(1, len(a)))
        parts = [nest(a[:k]), nest(a[k:])]
        if rng.random() < 0.5 and k == 1:
            parts[0] = a[0]
        return co.Pipe(tuple(parts))
    return nest(libs), False, how


def close(ctx, op, inp, out, want, mech, extra=1.0, **w):
    X, t, V, bad = O.read(inp, out)
    for b in bad:
        ctx.violation(mech + ":form", b, **w)
    tx, tt, tv = O.bounds(op, inp)
    if X is not None and want[0] is not None:
        ctx.close(X, want[0], tx * extra, mech + ":position", f"{w}")
    if t is not None:
        ctx.close(t, want[1], tt * extra, mech + ":time", f"{w}")
    if V is not None and want[2] is not None:
        S = np.abs(want[2]).max(initial=0) + np.abs(inp.V).max(initial=0) + op.scale()[2]
        ctx.close(V, want[2], 1e-9 * S * extra, mech + ":velocity", f"{w}")


def inputs_for(rng, op, n=2):
    forms = sorted(O.forms_of(op))
    for f in ([G.pick(rng, forms) for _ in range(n)] if len(forms) > n else forms):
        name = "q" if f == "q" else "CartesianPos3D" if f == "pos,vel" or rng.random() < 0.4 else G.pick(rng, NAMES)
        shape = G.pick(rng, [(3,), (3,), (3,), ()] + ([(2, 2)] if n > 1 and f != "four" else []))
        inp = O.make_input(rng, f, name, shape, D=0.7)
        if f == "pos,vel":
            inp = O.add_velocity(rng, inp, "CartesianVel3D")
        yield f, name, inp


def structure(ctx, p, libs, mech, **w):
    import coordinax.ops as co
    same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))
    ctx.check(isinstance(p, co.Pipe), mech + ":type", f"{type(p)}", **w)
    ctx.check(same(p.operators, libs), mech + ":operators", "constituents differ from the composed operators", **w)
    ctx.check(same(list(p), libs), mech + ":iter", "iteration differs", **w)
    n = len(libs)
    for i in range(-n, n):
        ctx.check(p[i] is libs[i], mech + ":index", f"index {i}", **w)
    for sl in (slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(0, n, 2), slice(1, 1)):
        s = p[sl]
        ctx.check(isinstance(s, co.Pipe) and same(s.operators, libs[sl]), mech + ":slice", f"{sl}", **w)
    ctx.must_raise(lambda: p[n], mech + ":index-out-of-range", IndexError)
    ctx.check(p.is_inertial == all(x.is_inertial for x in libs), mech + ":is_inertial", f"{p.is_inertial}", **w)
    ctx.ev("structure")


def exercise(ctx, op, mech, n=2, **w):
    """op, op.inverse and op.simplify() against the model on n inputs."""
    simp = op.lib.simplify()
    inv = op.lib.inverse
    isimp = inv.simplify() if ctx.rng.random() < 0.3 else None
    w["simplified"] = type(simp).__name__
    for f, name, inp in inputs_for(ctx.rng, op, n):
        w2 = dict(w, form=f, rep=name)
        with ctx.scope(f"{mech}:{f}", **w2):
            want = op.apply(inp.X, inp.t, inp.V)
            close(ctx, op, inp, op.lib(*inp.args), want, f"{mech}:{f}:apply", **w2)
            ctx.ev("apply")
            winv = op.apply(inp.X, inp.t, inp.V, inv=True)
            out = inv(*inp.args)
            close(ctx, op, inp, out, winv, f"{mech}:{f}:inverse", 2.0, **w2)
            close(ctx, op, inp, op.lib(*(out if isinstance(out, tuple) else (out,))), (inp.X, inp.t, inp.V), f"{mech}:{f}:inverse-then-op", 4.0, **w2)
            ctx.ev("inverse")
        with ctx.scope(f"{mech}:{f}:simplify", **w2):
            close(ctx, op, inp, simp(*inp.args), want, f"{mech}:{f}:simplify", 2.0, **w2)
            if isimp is not None:
                close(ctx, op, inp, isimp(*inp.args), winv, f"{mech}:{f}:inverse-simplify", 2.0, **w2)
            close(ctx, op, inp, simp.simplify()(*inp.args), want, f"{mech}:{f}:simplify-twice", 2.0, **w2)
            if ctx.rng.random() < 0.3:
                o2 = simp.inverse(*inp.args)
                close(ctx, op, inp, o2, winv, f"{mech}:{f}:simplify-inverse", 2.0, **w2)
            ctx.ev("simplify")
        ctx.distinct(tuple(p.kind for p in op.parts) if op.kind == "pipe" else op.kind, mech, f)


GROUPS = [["translation", "rotation", "identity"], ["translation", "velboost", "identity"], ["translation", "boost", "rotation", "sttrans", "galilean", "identity"],
          KINDS, ["rotation"], ["translation"], ["boost", "rotation"], ["sttrans", "boost"]]


def random_case(i):
    def run(ctx):
        rng = ctx.rng
        for _ in range(3 if ctx.quick() else 16):
            kinds = GROUPS[int(rng.integers(len(GROUPS)))]
            n = int(rng.integers(0, 7))
            parts = []
            for _ in range(n):
                parts.append(random_op(rng, kinds, parts[-1] if parts else None))
            before = [repr(p.lib) for p in parts]
            w = dict(kinds=[p.kind for p in parts])
            with ctx.scope("compose", **w):
                lib, flat, how = compose(rng, parts)
                if flat:
                    structure(ctx, lib, tuple(p.lib for p in parts), f"structure:{how}", **w)
                op = O.Op("pipe", lib, parts=parts)
                exercise(ctx, op, f"pipe:{how}", n=1 if ctx.quick() else 2, **w)
                ctx.check([repr(p.lib) for p in parts] == before, "pipe:mutated", "composition changed an operand", **w)
    return run


def pair_case(k1):
    def run(ctx):
        import coordinax.ops as co
        rng = ctx.rng
        for k2 in KINDS + ["pipe"]:
            for rep in range(2 if ctx.quick() else 12):
                def mk(k):
                    if k == "pipe":
                        a = [O.MAKE[x](rng) for x in (G.pick(rng, KINDS[:-1]), G.pick(rng, KINDS))]
                        return O.Op("pipe", a[0].lib | a[1].lib, parts=a)
                    return null_of(rng, k) if rng.random() < 0.2 else O.MAKE[k](rng)
                a, b = mk(k1), mk(k2)
                if rep == 1 and k1 == k2:
                    b = inverse_of(a) if k1 != "galilean" else b
                w = dict(first=a.kind, second=b.kind)
                with ctx.scope(f"pair:{k1}:{k2}", **w):
                    lib = a.lib | b.lib
                    flat = tuple(y for x in (a, b) for y in (x.lib.operators if x.kind == "pipe" else (x.lib,)))
                    ctx.check(len(lib.operators) == len(flat) and all(x is y for x, y in zip(lib.operators, flat)), f"pair:{k1}:{k2}:operators", f"{lib}", **w)
                    op = O.Op("pipe", lib, parts=[a, b])
                    exercise(ctx, op, f"pair:{k1}:{k2}", n=1, **w)
                    # two-argument simplification of the pair
                    s2 = O.Op("pipe", co.simplify_op(a.lib, b.lib), parts=[a, b])
                    for f, name, inp in inputs_for(rng, op, 1) if rng.random() < 0.4 else ():
                        close(ctx, op, inp, s2.lib(*inp.args), op.apply(inp.X, inp.t, inp.V), f"pair:{k1}:{k2}:simplify2", 2.0, **w)
                    ctx.ev("pairs")
    return run


def single_case(kind):
    """simplify() of one operator: same action; null ones become the identity, others keep theirs."""
    def run(ctx):
        import coordinax.ops as co
        rng = ctx.rng
        for rep in range(3 if ctx.quick() else 30):
            for null in (False, True):
                op = null_of(rng, kind) if null else O.MAKE[kind](rng)
                w = dict(kind=kind, null=null)
                with ctx.scope(f"single:{kind}", **w):
                    s = op.lib.simplify()
                    if null:
                        ctx.check(isinstance(s, co.Identity), f"single:{kind}:null-simplifies", f"{type(s).__name__}", **w)
                    exercise(ctx, op, f"single:{kind}", n=1 if ctx.quick() else 2, **w)
    return run


def galilean_subsets(ctx):
    """Galilean operators with every subset of null parts."""
    import coordinax.ops as co
    rng = ctx.rng
    z = np.zeros(3)
    for rep in range(1 if ctx.quick() else 12):
        for m in range(16):
            op = O.galilean(rng, R=np.eye(3) if m & 1 else None, o=z if m & 2 else None, t0=0.0 if m & 4 else None, w=z if m & 8 else None)
            w = dict(nulls=m)
            exercise(ctx, op, "galilean-subset", n=1, **w)
            with ctx.scope("galilean:getitem", **w):
                ops = op.lib.operators
                ctx.check(all(op.lib[i] is ops[i] for i in (0, 1, 2, -1)), "galilean:index", "")
                ctx.check([type(x).__name__ for x in op.lib] == ["GalileanRotation", "GalileanTranslation", "GalileanBoost"], "galilean:iter", "")
                s = op.lib[1:]
                ctx.check(isinstance(s, co.Pipe) and s.operators == ops[1:], "galilean:slice", f"{s}")
                sub = O.Op("pipe", op.lib[0:2], parts=[O.Op("rotation", None, R=op.R), O.Op("sttrans", None, o=op.o, t0=op.t0)])
                for f, name, inp in inputs_for(rng, sub, 1):
                    close(ctx, sub, inp, sub.lib(*inp.args), sub.apply(inp.X, inp.t, inp.V), "galilean:slice:apply", **w)
                ctx.ev("structure")


def rotations(ctx):
    """@ and simplification of rotations multiply matrices."""
    rng = ctx.rng
    import coordinax.ops as co
    for _ in range(10 if ctx.quick() else 80):
        a, b, c = (O.rotation(rng) for _ in range(3))
        with ctx.scope("rotation"):
            ctx.close(np.asarray((a.lib @ b.lib).rotation), a.R @ b.R, 1e-12, "rotation:matmul", "")
            ctx.close(np.asarray((a.lib @ b.lib @ c.lib).rotation), a.R @ b.R @ c.R, 1e-12, "rotation:matmul3", "")
            s = (a.lib | b.lib | c.lib).simplify()
            ctx.check(type(s) in (co.GalileanRotation, co.Pipe), "rotation:simplify-type", f"{type(s)}")
            if type(s) is co.GalileanRotation:
                ctx.close(np.asarray(s.rotation), c.R @ b.R @ a.R, 1e-12, "rotation:simplify", "applied left to right")
            ctx.close(np.asarray(a.lib.inverse.rotation), a.R.T, 1e-12, "rotation:inverse", "")
            inp = O.make_input(rng, "pos", "CartesianPos3D", (3,))
            m = O.Op("rotation", a.lib @ b.lib, R=a.R @ b.R)
            close(ctx, m, inp, m.lib(*inp.args), m.apply(inp.X, None, None), "rotation:matmul:apply")
            ctx.ev("structure")


def lowdim_case(d):
    """One- and two-dimensional translations and boosts compose, invert and simplify like the three-dimensional ones."""
    def run(ctx):
        import coordinax.ops as co
        rng = ctx.rng
        v = G.vecs()
        names = ["CartesianPos1D"] if d == 1 else ["CartesianPos2D", "PolarPos"]
        for _ in range(10 if ctx.quick() else 80):
            def mk(k):
                null = rng.random() < 0.25
                if k == "translation":
                    return O.translation(rng, d, np.zeros(d) if null else None, form="q" if null else None)
                if k == "identity":
                    return O.identity(rng)
                return O.boost(rng, np.zeros(d) if null else None, kind=k, d=d)
            parts = [mk(G.pick(rng, ["translation", "boost", "velboost", "identity"])) for _ in range(int(rng.integers(1, 5)))]
            if len(parts) > 1 and rng.random() < 0.3:
                parts[-1] = inverse_of(parts[-2])
            w = dict(kinds=[p.kind for p in parts], d=d)
            name = G.pick(rng, names)
            inp = O.make_input(rng, "pos,t", name, G.pick(rng, [(), (3,)]), d=d)
            with ctx.scope(f"lowdim:{d}", **w):
                lib, _, how = compose(rng, parts)
                op = O.Op("pipe", lib, parts=parts)
                want, winv = op.apply(inp.X, inp.t, None), op.apply(inp.X, inp.t, None, inv=True)
                close(ctx, op, inp, lib(*inp.args), want, f"lowdim:{d}:apply", **w)
                close(ctx, op, inp, lib.inverse(*inp.args), winv, f"lowdim:{d}:inverse", 2.0, **w)
                ctx.ev("apply"); ctx.ev("inverse")
                s = lib.simplify()
                close(ctx, op, inp, s(*inp.args), want, f"lowdim:{d}:simplify", 2.0, **w)
                close(ctx, op, inp, s.simplify()(*inp.args), want, f"lowdim:{d}:simplify-twice", 2.0, **w)
                for p in parts:
                    one = p.lib.simplify()
                    close(ctx, p, inp, one(*inp.args), p.apply(inp.X, inp.t, None), f"lowdim:{d}:{p.kind}:simplify", 2.0, **w)
                    ctx.check(isinstance(one, co.Identity) or max(p.scale()) > 0, f"lowdim:{d}:{p.kind}:null-simplifies", f"{one}", **w)
                ctx.ev("simplify")
                ctx.distinct("lowdim", d, tuple(p.kind for p in parts), name)
    return run


def jit_case(ctx):
    import jax
    rng = ctx.rng
    for _ in range(3 if ctx.quick() else 12):
        parts = [O.MAKE[k](rng) for k in ("rotation", "translation", "sttrans", "boost")]
        lib, _, how = compose(rng, parts)
        op = O.Op("pipe", lib, parts=parts)
        for name in ("CartesianPos3D", "SphericalPos"):
            inp = O.make_input(rng, "pos,t", name, (3,))
            with ctx.scope("jit", how=how):
                close(ctx, op, inp, jax.jit(lambda o, p, t: o(p, t))(lib, *inp.args), op.apply(inp.X, inp.t, None), "jit:apply")
                close(ctx, op, inp, jax.jit(lambda o, p, t: o.inverse(p, t))(lib, *inp.args), op.apply(inp.X, inp.t, None, inv=True), "jit:inverse", 2.0)
                ctx.ev("apply"); ctx.ev("inverse")
    import coordinax.ops as co
    for bad in ("x", 3, None, {1, 2}):
        ctx.must_raise(lambda: co.Pipe(bad), "refuse:pipe", TypeError, f"{bad!r}")


def cases(tier):
    out = [(f"random:{i}", random_case(i)) for i in range(20 if tier == "quick" else 80)]
    out += [(f"pair:{k}", pair_case(k)) for k in KINDS + ["pipe"]]
    out += [(f"single:{k}", single_case(k)) for k in KINDS]
    out += [("galilean-subsets", galilean_subsets), ("rotations", rotations), ("jit", jit_case), ("lowdim:1", lowdim_case(1)), ("lowdim:2", lowdim_case(2))]
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

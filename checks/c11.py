"""C11: operators act as the affine maps they stand for, on every input form, and their inverses undo them."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import model as M, gen as G, runtime as R, opsmodel as O

PROP = "C11"
RULE = ("a case builds operators of one kind with random parameters (given in every accepted form and unit), applies them to one input form "
        "in one representation with random batch shapes, and compares the physical result with a plain affine model, the representation and "
        "attributes with the input's, the untouched parts bit for bit, and op/inverse in both orders with the input; distinct = "
        "(kind, form, representation, batch shape)")
ASSUMPTIONS = ["boost velocities are Cartesian (a curvilinear velocity has no meaning without a base point)",
               "velocity representations are compared at points away from the coordinate singularities",
               "operators whose call signature the library does not define are outside (see DESIGN.md for the table)"]
REQUIRED = {"apply": 150, "inverse": 150, "dims": 20, "param": 40, "composite": 8, "custom": 20}
SHAPES = [(), (4,), (2, 3), (2, 1, 2), (1,)]


def same_bits(a, b):
    import dataclasses
    if hasattr(a, "components"):
        return type(a) is type(b) and all(same_bits(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    return type(a) is type(b) and a.unit == b.unit and np.array_equal(np.asarray(a.value), np.asarray(b.value))


def judge(ctx, op, inp, out, want, mech, extra=1.0, **w):
    X, t, V, bad = O.read(inp, out)
    for b in bad:
        ctx.violation(mech + ":form", b, **w)
    tx, tt, tv = O.bounds(op, inp)
    wx, wt, wv = want
    if X is not None and wx is not None:
        ctx.close(X, wx, tx * extra, mech + ":position", f"{w}")
    if t is not None:
        ctx.close(t, wt, tt * extra if inp.form != "q4" else 1e-11 * (np.abs(wt).max(initial=0) + op.scale()[1] + 30 / O.lightspeed()), mech + ":time", f"{w}")
    if V is not None and wv is not None:
        S = np.abs(wv).max(initial=0) + np.abs(inp.V).max(initial=0)
        # the basis at the new point may be badly conditioned: scale by |X| / distance from the axis
        cond = 1.0
        if wx is not None and getattr(inp, "velname", "Cart")[:4] != "Cart":
            rho = np.hypot(wx[..., 0], wx[..., 1]).min(initial=np.inf)
            cond = float(np.sqrt((wx**2).sum(-1)).max(initial=0) / max(rho, 1e-300))
        ctx.close(V, wv, (1e-10 if inp.D is None else 1e-5) * S * cond * extra, mech + ":velocity", f"{w}")


def untouched(ctx, op, inp, out, mech, **w):
    """Parts the operator does not act on come back bit for bit."""
    acts = O.ACTS[op.kind]
    f = inp.form
    if op.kind == "identity":
        a = inp.args if len(inp.args) > 1 else inp.args[0]
        ctx.check(out is a or (isinstance(out, tuple) and all(x is y for x, y in zip(out, inp.args))), mech + ":identity", "identity returns its arguments", **w)
    if f in ("pos,t", "q,t") and "t" not in acts:
        ctx.check(same_bits(out[1], inp.args[1]), mech + ":untouched-time", f"{out[1]} from {inp.args[1]}", **w)
    if f == "four" and "t" not in acts:
        ctx.check(same_bits(out.t, inp.args[0].t), mech + ":untouched-time", f"{out.t}", **w)
    if "X" not in acts and f in ("pos", "pos,t", "pos,vel"):
        o = out[0] if isinstance(out, tuple) else out
        ctx.check(same_bits(o, inp.args[0]), mech + ":untouched-position", f"{o}", **w)


def do(ctx, kind, form, name, shape, op=None, d=3):
    rng = ctx.rng
    w = dict(kind=kind, form=form, rep=name, shape=shape)
    mech = f"{kind}:{form}:{name}"
    with ctx.scope(mech, **w):
        op = op or O.MAKE[kind](rng)
        tshape = () if form in ("pos,t", "q,t", "four") and rng.random() < 0.3 else None
        if op.kind in ("sttrans", "galilean", "boost") and tshape == () and form == "four":
            tshape = None if shape else ()
        if shape and form in ("pos,t", "q,t", "four") and rng.random() < (0.6 if form == "four" else 0.35):  # times to be broadcast along an axis
            ax = int(rng.integers(len(shape)))
            tshape = shape[:ax] + (1,) + shape[ax + 1:]
        inp = O.make_input(rng, form, name, shape, tshape, d=d)
        if form == "pos,vel":
            fam = [M.velname(name)] if name != "LonLatSphericalPos" else [M.velname(name), "LonCosLatSphericalVel"]
            vn = G.pick(rng, fam + ["CartesianVel3D"]) if kind != "velboost" else "CartesianVel3D"
            inp = O.add_velocity(rng, inp, vn)
            w["vel"] = vn
        before = repr(inp.args)
        out = op.lib(*inp.args)
        ctx.ev("apply")
        ctx.distinct(kind, form, name, shape)
        want = op.apply(inp.X, inp.t, inp.V)
        judge(ctx, op, inp, out, want, mech, **w)
        untouched(ctx, op, inp, out, mech, **w)
        ctx.check(repr(inp.args) == before, mech + ":mutated", "operands changed", **w)
        inv = op.lib.inverse
        args = out if isinstance(out, tuple) else (out,)
        judge(ctx, op, inp, inv(*args), (inp.X, inp.t, inp.V), mech + ":inverse-after", extra=4.0, **w)
        o2 = inv(*inp.args)
        judge(ctx, op, inp, o2, op.apply(inp.X, inp.t, inp.V, inv=True), mech + ":inverse", extra=2.0, **w)
        args = o2 if isinstance(o2, tuple) else (o2,)
        judge(ctx, op, inp, op.lib(*args), (inp.X, inp.t, inp.V), mech + ":inverse-before", extra=4.0, **w)
        ctx.ev("inverse")
        ctx.sample(kind=kind, form=form, rep=name, shape=str(shape))


def names_of(form):
    return ["q"] if form in ("q", "q,t", "q4") else ["vel"] if form == "vel" else M.POS3


def kind_case(kind, form, names):
    def run(ctx):
        for name in names:
            shapes = SHAPES if not ctx.quick() else [G.pick(ctx.rng, SHAPES)]
            if name == "q" and ctx.quick():
                shapes = SHAPES
            for shape in shapes:
                for _ in range(1 if ctx.quick() else 3):
                    do(ctx, kind, form, name, shape)
    return run


def dims_case(ctx):
    """Translations and boosts in one and two dimensions."""
    for d, names in ((1, M.POS1), (2, M.POS2)):
        for name in names + ["q"]:
            for rep in range(2 if ctx.quick() else 8):
                shape = G.pick(ctx.rng, [(), (4,), (2, 3), (2, 1, 2)])
                if name == "q":
                    for form in ("q", "q,t"):
                        o = O.rand_vec(ctx.rng, d)
                        do(ctx, "translation", form, "q", shape, O.translation(ctx.rng, d, np.abs(o)), d)
                        ctx.ev("dims")
                    continue
                for form in ("pos", "pos,t", "four") if d == 3 else ("pos", "pos,t"):
                    o = np.abs(O.rand_vec(ctx.rng, d, 1e-3, 0.2)) if d == 1 else None
                    op = O.translation(ctx.rng, d, o)
                    do(ctx, "translation", form, name, shape, op, d)
                    ctx.ev("dims")
                if name.startswith("Cart") or d == 2:
                    do(ctx, "boost", "pos,t", name, shape, O.boost(ctx.rng, d=d), d)
                    ctx.ev("dims")


def param_case(ctx):
    """Defaults, parameter conversions, negation, is_inertial, refusal of nonsense parameters."""
    import coordinax.ops as co
    u, v = G.U(), G.vecs()
    rng = ctx.rng
    for _ in range(3 if ctx.quick() else 20):
        inp = O.make_input(rng, "pos,t", "CartesianPos3D", (3,))
        for which in range(8):
            r, tr, b = O.rotation(rng), O.sttrans(rng), O.boost(rng)
            kw, parts = {}, []
            if which & 1:
                kw["rotation"], parts = r.lib, parts + [r]
            if which & 2:
                kw["translation"], parts = tr.lib, parts + [tr]
            if which & 4:
                kw["velocity"], parts = b.lib, parts + [b]
            with ctx.scope("galilean:defaults", which=which):
                op = O.Op("pipe", co.GalileanOperator(**kw), parts=parts)
                judge(ctx, op, inp, op.lib(*inp.args), op.apply(inp.X, inp.t, None), "galilean:defaults", which=which)
                judge(ctx, op, inp, op.lib.inverse(*inp.args), op.apply(inp.X, inp.t, None, inv=True), "galilean:defaults:inverse", which=which)
                ops = op.lib.operators
                ctx.check([type(x).__name__ for x in ops] == ["GalileanRotation", "GalileanTranslation", "GalileanBoost"], "galilean:operators", f"{ops}")
                ctx.ev("param")
        for kind in ("translation", "boost", "velboost"):
            with ctx.scope(f"neg:{kind}"):
                op = O.MAKE[kind](rng)
                form = "pos,t" if kind != "velboost" else "vel"
                i2 = O.make_input(rng, form, "CartesianPos3D", (3,))
                judge(ctx, op, i2, (-op.lib)(*i2.args), op.apply(i2.X, i2.t, i2.V, inv=True), f"neg:{kind}")
                ctx.check((-op.lib).is_inertial is True and op.lib.is_inertial is True, "is_inertial", kind)
                ctx.ev("param")
        with ctx.scope("neg:rotation"):
            op = O.rotation(rng)
            i2 = O.make_input(rng, "pos,t", "CartesianPos3D", (3,))
            judge(ctx, op, i2, (-op.lib)(*i2.args), (-op.apply(i2.X, i2.t, None)[0], i2.t, None), "neg:rotation")
            a, b = O.rotation(rng), O.rotation(rng)
            m = a.lib @ b.lib
            ctx.close(np.asarray(m.rotation), a.R @ b.R, 1e-13, "rotation:matmul", "product of rotations")
            ctx.ev("param")
        for form in ("euler", "EULER"):
            with ctx.scope("rotation:euler", form=form):
                op = O.rotation(rng, form=form)
                ctx.close(np.asarray(op.lib.rotation), op.R, 1e-12, f"rotation:{form}", "Euler angles give the rotation about the named axes in order")
                ctx.ev("param")
    C = co.GalileanSpatialTranslation
    ctx.must_raise(lambda: C(u.Quantity(np.ones(4), "kpc")), "refuse:translation-len4")
    ctx.must_raise(lambda: C(u.Quantity(np.ones((2, 3)), "kpc")), "refuse:translation-batch")
    ctx.must_raise(lambda: C("nonsense"), "refuse:translation-str")
    ctx.must_raise(lambda: C(u.Quantity(np.ones(3), "s")), "refuse:translation-dim")
    ctx.must_raise(lambda: co.GalileanBoost.from_(u.Quantity(np.ones(3), "kpc")), "refuse:boost-dim")
    ctx.must_raise(lambda: co.VelocityBoost.from_(u.Quantity(np.ones(3), "kpc")), "refuse:velboost-dim")
    ctx.must_raise(lambda: co.GalileanRotation(u.Quantity(np.eye(3), "kpc")), "refuse:rotation-dim")
    ctx.must_raise(lambda: co.GalileanRotation.from_(co.GalileanBoost.from_([1, 2, 3], "km/s")), "refuse:from-other")
    ctx.ev("param", 8)


def grid_case(kind):
    """Special parameters (null, tiny, huge, quarter turns) and special points."""
    def run(ctx):
        rng = ctx.rng
        for rep in range(2 if ctx.quick() else 20):
            specs = {"rotation": [lambda: O.rotation(rng, special=s) for s in ("identity", "quarter", "small")],
                     "translation": [lambda: O.translation(rng, o=np.zeros(3), form="q"), lambda: O.translation(rng, o=np.array([0, 0, 5.0])), lambda: O.translation(rng, o=O.rand_vec(rng, 3, 1e4, 1e6)), lambda: O.translation(rng, o=O.rand_vec(rng, 3, 1e-9, 1e-6))],
                     "boost": [lambda: O.boost(rng, np.zeros(3)), lambda: O.boost(rng, O.rand_vec(rng, 3, 1e2, 1e3)), lambda: O.boost(rng, np.array([0, 0.3, 0]))]}[kind]
            for s in ("identity", "quarter", "small") if kind == "rotation" else range(len(specs)):
                op = O.rotation(rng, special=s) if kind == "rotation" else specs[s]()
                do(ctx, kind, "pos,t", G.pick(rng, ["CartesianPos3D", "SphericalPos", "LonLatSphericalPos", "CylindricalPos", "MathSphericalPos"]), (3,), op)
    return run


def composite_case(form):
    """Composites are operators too: flat, nested and self-containing pipes act and invert as the composition of their maps."""
    def run(ctx):
        import coordinax.ops as co
        rng = ctx.rng
        kinds = [k for k, f in O.SUPPORT.items() if form in f]

        def grow(n):
            if n == 1:
                return O.MAKE[G.pick(rng, kinds)](rng)
            k = int(rng.integers(1, n))
            parts = [grow(k), grow(n - k)]
            return O.Op("pipe", co.Pipe(tuple(p.lib for p in parts)), parts=parts)
        for _ in range(4 if ctx.quick() else 40):
            n = int(rng.integers(2, 6))
            op = grow(n)
            if rng.random() < 0.3:
                op = O.Op("pipe", co.Pipe((op.lib, op.lib)), parts=[op, op])
            name = G.pick(rng, ["CartesianPos3D", "CartesianPos3D", "SphericalPos", "LonLatSphericalPos", "CylindricalPos"])
            do(ctx, "pipe", form, name, G.pick(rng, [(), (3,), (2, 3)] if form != "four" else [(3,)]), op)
            ctx.ev("composite")
    return run


def custom_case(ctx):
    """Operators the library does not know: the general call rules (quantities, times, 4-vectors, pipes) apply to every operator."""
    import coordinax.ops as co
    rng = ctx.rng
    for d, forms in ((1, ("q", "q,t", "pos", "pos,t")), (2, ("q", "q,t", "pos", "pos,t")), (3, ("q", "q,t", "q4", "pos", "pos,t", "four"))):
        for form in forms:
            for _ in range(3 if ctx.quick() else 20):
                name = "q" if form[0] == "q" else G.pick(rng, {1: ["CartesianPos1D"], 2: M.POS2, 3: [n for n in M.POS3 if not n.startswith("Prolate")]}[d])
                shape = G.pick(rng, [(), (4,), (2, 3), (2, 1, 2)])
                op = O.custom(rng)
                do(ctx, "custom", form, name, shape, op, d)
                if d == 3 and form in ("pos", "pos,t", "four"):
                    b = O.MAKE["rotation" if form == "pos" else G.pick(rng, ["rotation", "translation", "sttrans"])](rng)
                    for parts in ([op, b], [b, op]):
                        lib = G.pick(rng, [lambda: parts[0].lib | parts[1].lib, lambda: co.Pipe(tuple(p.lib for p in parts)), lambda: co.Pipe(tuple(p.lib for p in parts)).simplify()])()
                        do(ctx, "pipe", form, name, shape, O.Op("pipe", lib, parts=parts), d)
                ctx.check(op.lib.simplify() is op.lib, "custom:simplify", "an operator without a simplification is returned as is")
                ctx.ev("custom")


def cases(tier):
    out = [("custom", custom_case)] + [(f"composite:{f}", composite_case(f)) for f in ("pos,t", "four", "pos")] + [("dims", dims_case), ("params", param_case)] + [(f"special:{k}", grid_case(k)) for k in ("rotation", "translation", "boost")]
    for k, forms in O.SUPPORT.items():
        for f in sorted(forms):
            for n in names_of(f):
                out.append((f"{k}:{f}:{n}", kind_case(k, f, [n])))
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

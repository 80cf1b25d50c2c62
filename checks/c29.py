"""C29: what str, repr and the notebook displays print is what the object holds."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import re
import numpy as np
from mon import model as M, gen as G, runtime as R, build as B, opsmodel as O

PROP = "C29"
RULE = ("a case builds one vector class (or a four-vector, Space, operator, pipe, frame) with random values, units, component shapes, dtypes and special "
        "values, prints it in every way the library offers, parses the text back and compares class, component names and order, units and numbers "
        "with the values the object was built from; distinct = (class, kind of text, shape, unit mix, value regime)")
ASSUMPTIONS = ["numbers are printed to three decimals (str) or astropy's default precision (LaTeX); arrays of more than 1000 elements are summarised",
               "layout (line breaks, indentation) is not part of the property"]
REQUIRED = {"str": 200, "repr": 200, "latex": 150, "bundle": 150, "four": 15, "space": 15, "operator": 40, "traced": 25}
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"
SHAPES = [(), (3,), (2, 3), (1,), (0,), (2, 1, 2)]


def squash(s):
    return re.sub(r"\s+", "", s)


def numbers(s):
    return np.array([float(x) for x in re.findall(NUM, s)])


def near(got, want, rel=5.2e-4, absol=5.2e-4):
    """Printed to three decimals (fixed or scientific)."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    ok = (np.abs(got - want) <= np.maximum(absol, rel * np.abs(want))) | (np.isnan(got) & np.isnan(want)) | (got == want)
    return bool(ok.all())


def header(s):
    """(class, [(component, unit)], body) of a printed vector."""
    m = re.match(r"^<(\w+) \((.*?)\)\n(.*)>$", s, re.S)
    if not m:
        return None
    comps = re.findall(r"(\w+)\[([^\]]*)\]", m.group(2))
    if re.sub(r"\w+\[[^\]]*\]", "#", m.group(2)).replace(" ", "") != ",".join("#" * len(comps)):
        return None
    return m.group(1), comps, m.group(3)


def sameunit(a, b):
    u = G.U()
    try:
        return u.unit(a) == u.unit(b)
    except Exception:
        return False


def make(rng, name, regime):
    """A vector with per-component units and broadcastable shapes, and the plain values (in those units, full shape)."""
    full = G.pick(rng, SHAPES)
    comps = B.FIELDS[name][1]
    order = B.FIELDS[name][0]
    vals, units, want = {}, {}, {}
    sane = B.sane(rng, name, full, ints=regime == "ints")
    for i, (k, kind) in enumerate(comps):
        base = B.unit_of(name, k)
        pool = [base] if name.startswith("Prolate") and order == 0 and kind != M.ANG else G.units_for(kind, order)
        un = G.pick(rng, pool) if regime != "ints" else base
        x = sane[k]
        if regime == "mixedshape" and full and rng.random() < 0.5:
            cut = int(rng.integers(0, len(full) + 1))
            shp = full[cut:]
            if rng.random() < 0.4:
                shp = tuple(1 if rng.random() < 0.5 else n for n in shp)
            x = np.broadcast_to(x, full)[tuple(0 if n else slice(None) for n in full[:cut])] if 0 not in full else x
            x = x[tuple(slice(0, n) for n in shp)] if 0 not in full else x
        if regime == "special" and order and rng.random() < 0.6 and x.size:
            x = np.array(x, float)
            x[tuple(int(rng.integers(n)) for n in x.shape)] = G.pick(rng, [np.nan, np.inf, -np.inf, 0.0, 1e-12, 1e12])
        if regime == "wide" and order:
            x = x * 10.0 ** rng.integers(-9, 10)
        vals[k], units[k] = np.asarray(x * M.factor(base, un)), un
    vec = B.build(name, vals, units)
    fullshape = np.broadcast_shapes(*(v.shape for v in vals.values()))
    want = np.stack([np.broadcast_to(vals[k], fullshape) for k, _ in comps], -1)
    return vec, comps, units, want, vals


def judge_str(ctx, s, name, comps, units, want, mech, **w):
    h = header(s)
    ctx.check(h is not None, mech + ":layout", f"not a printed vector: {s!r}", **w)
    if h is None:
        return
    ctx.check(h[0] == name, mech + ":class", f"{h[0]}", **w)
    ctx.check([c for c, _ in h[1]] == list(comps), mech + ":components", f"{h[1]}", **w)
    for c, un in h[1]:
        if c in units:
            ctx.check(sameunit(un, units[c]), mech + ":unit", f"{c} printed in {un}, stored in {units[c]}", **w)
    if want.size <= 1000:
        n = numbers(h[2])
        ctx.check(n.size == want.size, mech + ":count", f"{n.size} numbers for {want.size} values", **w)
        if n.size == want.size:
            ctx.check(near(n, want.ravel()), mech + ":values", f"printed {n[:12]} stored {want.ravel()[:12]}", **w)
        if want.size:
            depth = len(re.match(r"\s*(\[*)", h[2]).group(1))
            ctx.check(depth == want.ndim, mech + ":nesting", f"{depth} brackets for {want.ndim} axes", **w)
    else:
        n = numbers(h[2])
        ctx.check("..." in h[2] and near(n[:want.shape[-1]], want.reshape(-1, want.shape[-1])[0]) and near(n[-want.shape[-1]:], want.reshape(-1, want.shape[-1])[-1]),
                  mech + ":summary", "first and last entries", **w)
    ctx.ev("str")


def judge_repr(ctx, s, obj, comps, units, vals, mech, **w):
    t = squash(s)
    ctx.check(t.startswith(type(obj).__name__ + "(") and t.count("(") == t.count(")"), mech + ":class", s[:60], **w)
    at = 0
    for k in comps:
        found = re.search(rf"(?<=[(,]){k}=", t[at:])
        ctx.check(found is not None, mech + ":component", f"{k} not found in order in {t}", **w)
        if found is None:
            continue
        i = at + found.start()
        at = i
        x = vals[k]
        q = getattr(obj, k)
        m = re.match(rf"{k}=(\w+)(?:\[.*?\])?\(value=(?:weak_)?([fi]\d+)\[([\d,]*)\],unit=Unit\(\"(.*?)\"\)", t[i:])
        ctx.check(m is not None, mech + ":component-layout", t[i:i + 80], **w)
        if m:
            ctx.check(m.group(1) == type(q).__name__.split("[")[0], mech + ":component-class", m.group(1), **w)
            ctx.check(m.group(2) in (np.dtype(q.value.dtype).kind + str(8 * np.dtype(q.value.dtype).itemsize),), mech + ":dtype", m.group(2), **w)
            ctx.check(tuple(int(n) for n in m.group(3).split(",") if n) == x.shape, mech + ":shape", f"{m.group(3)} for {x.shape}", **w)
            ctx.check(sameunit(re.sub(r"(?<=[a-zA-Z])(?=\d)", "", m.group(4)) if " " not in m.group(4) else str(q.unit), units[k]), mech + ":unit", m.group(4), **w)
    ctx.ev("repr")


def shows(q, k):
    """Pattern of a named quantity inside a printed structure: class, dtype, shape and unit."""
    a = np.asarray(q.value)
    return (rf"{k}={type(q).__name__.split('[')[0]}(?:\[[^=]*?\])?\(value=(?:weak_)?{a.dtype.kind}{8 * a.dtype.itemsize}\[{','.join(map(str, a.shape))}\],unit=Unit\(\"" +
            re.escape(squash(str(q.unit))) + r"\"\)")


def rows(tex):
    """Names and value rows of a LaTeX vector equation (one level)."""
    m = re.match(r"^\$?\\left\( \\begin\{matrix\}(.*?)\\end\{matrix\} \\right\)=\\left\( \\begin\{matrix\}(.*)\\end\{matrix\} \\right\)\$?$", tex, re.S)
    if not m:
        return None
    names = [re.sub(r"\\mathrm\{\s*(.*?)\s*\}", r"\1", x).strip() for x in m.group(1).split(r" \\ ")]
    return names, m.group(2).split(r" \\ ")


def judge_latex(ctx, obj, comps, vals, units, extra, mech, **w):
    tex = obj._repr_latex_()
    r = rows(tex)
    ctx.check(tex.startswith("$") and tex.endswith("$") and r is not None, mech + ":layout", tex[:100], **w)
    if r is None:
        return tex
    want = [k.replace("_", "") for k in list(comps) + extra]
    ctx.check(r[0] == want, mech + ":components", f"{r[0]} for {want}", **w)
    ctx.check(len(r[1]) == len(want), mech + ":rows", f"{len(r[1])} rows for {want}", **w)
    for k, row in zip(comps, r[1]):
        q = getattr(obj, k)
        ctx.check(row.strip() == q._repr_latex_().strip("$").strip(), mech + ":row", f"{k}: {row}", **w)
        if vals[k].size <= 20 and np.isfinite(vals[k]).all():
            body = row.split(r"\;")[0].replace("~", " ")
            body = re.sub(r"\s*\\times\s*10\^\{([-+]?\d+)\}", r"e\1", body)
            n = numbers(body)
            ctx.check(n.size == vals[k].size and near(n, vals[k].ravel(), 1e-5, 1e-5 * max(1.0, np.abs(vals[k]).max(initial=0))), mech + ":values", f"{k}: {body} for {vals[k].ravel()}", **w)
    ctx.ev("latex")
    return tex


def judge_bundle(ctx, obj, tex, mech, **w):
    f = obj._repr_mimebundle_
    full = {"text/plain": repr(obj), "text/latex": tex}
    ctx.check(f() == full, mech + ":all", f"{f()}", **w)
    ctx.check(f(include=["text/plain"]) == {"text/plain": full["text/plain"]} and f(include=["text/latex"]) == {"text/latex": tex}, mech + ":include", "", **w)
    ctx.check(f(exclude=["text/plain"]) == {"text/latex": tex} and f(exclude=["text/latex"]) == {"text/plain": full["text/plain"]}, mech + ":exclude", "", **w)
    ctx.check(f(include=["text/latex"], exclude=["text/latex"]) == {"text/latex": tex}, mech + ":precedence", "include has precedence", **w)
    ctx.check(f(include=["text/html"]) == {} and f(include=[]) == {} and f(exclude=["text/plain", "text/latex"]) == {}, mech + ":none", "", **w)
    # what is asked for is a set of exact names, whatever the container and whatever else is in it
    for odd in ("text/plain+x", "text", "text/latex;v=1", "TEXT/PLAIN", "text/plaintext/latex", "_repr_latex_"):
        ctx.check(f(include=[odd]) == {} and f(exclude=[odd]) == full, mech + ":exact-name", odd, **w)
        ctx.check(f(include=[odd, "text/plain"]) == {"text/plain": full["text/plain"]} and f(exclude=[odd, "text/plain"]) == {"text/latex": tex}, mech + ":exact-name", odd, **w)
    for box in (tuple, set, frozenset, lambda x: dict.fromkeys(x)):
        ctx.check(f(include=box(["text/latex"])) == {"text/latex": tex} and f(exclude=box(["text/latex"])) == {"text/plain": full["text/plain"]}, mech + ":container", "", **w)
    ctx.check(f(include=["text/latex", "text/plain"]) == full and f(include=["text/plain", "text/plain"]) == {"text/plain": full["text/plain"]}, mech + ":order", "", **w)
    ctx.ev("bundle")


def vector_case(name):
    def run(ctx):
        import jax
        rng = ctx.rng
        for it in range(2 if ctx.quick() else 25):
            for regime in ("plain", "mixedshape", "ints", "special", "wide"):
                w = dict(cls=name, regime=regime)
                with ctx.scope(f"vector:{regime}", **w):
                    vec, comps, units, want, vals = make(rng, name, regime)
                    names = [k for k, _ in comps]
                    w.update(shape=want.shape[:-1], uns=list(units.values()))
                    before = {k: np.array(getattr(vec, k).value) for k in names}
                    judge_str(ctx, str(vec), name, names, units, want, "str", **w)
                    ctx.check(f"{vec}" == str(vec) == vec.__format__(""), "str:format", "f-string differs from str", **w)
                    judge_repr(ctx, repr(vec), vec, names, units, vals, "repr", **w)
                    extra = ["Delta"] if name == "ProlateSpheroidalPos" else []
                    if extra:
                        ctx.check(re.search(shows(vec.Delta, "Delta"), squash(repr(vec))) is not None, "repr:attribute", repr(vec)[-150:], **w)
                    tex = judge_latex(ctx, vec, names, vals, units, extra, "latex", **w)
                    judge_bundle(ctx, vec, tex, "bundle", **w)
                    ctx.check(all(np.array_equal(before[k], np.asarray(getattr(vec, k).value), equal_nan=True) for k in names), "mutated", "printing changed the vector", **w)
                    ctx.distinct(name, regime, want.shape, tuple(units.values()))
                    ctx.sample(cls=name, regime=regime, text=str(vec)[:200])
                    # what differs in class, unit or shape prints differently
                    if want.shape[:-1] == (3,) and regime == "plain":
                        ctx.check(repr(vec[:2]) != repr(vec) and str(vec[:2]) != str(vec), "repr:shape-distinguishes", "", **w)
                    if it == 0 and regime == "plain":
                        seen = []
                        jax.jit(lambda z: (seen.append(repr(z)), z)[1])(vec)
                        t = squash(seen[0])
                        ctx.check(t.startswith(name + "(") and all(f"{k}=" in t for k in names), "traced:repr", seen[0][:100], **w)
                        ctx.ev("traced")
        if name == "CartesianPos3D":
            n = 700
            X = rng.normal(size=(n, 3))
            big = G.vecs().CartesianPos3D.from_(G.quantity(X, "kpc"))
            judge_str(ctx, str(big), name, ["x", "y", "z"], {k: "kpc" for k in "xyz"}, X, "str:big")
    return run


def nd_case(ctx):
    rng = ctx.rng
    v = G.vecs()
    for _ in range(4 if ctx.quick() else 40):
        for cls, (k, order) in B.ND.items():
            shp = G.pick(rng, [(), (3,), (2, 2)])
            n = int(rng.integers(1, 6))
            un = G.pick(rng, G.units_for(M.LEN, order))
            X = rng.normal(size=shp + (n,)) * 10
            vec = getattr(v, cls)(G.quantity(X, un))
            w = dict(cls=cls, shape=shp, n=n)
            with ctx.scope("nd", **w):
                h = header(str(vec))
                ctx.check(h is not None and h[0] == cls and [c for c, _ in h[1]] == [k] and sameunit(h[1][0][1], un), "nd:header", str(vec)[:80], **w)
                ctx.check(h is not None and near(numbers(h[2]), X.ravel()), "nd:values", str(vec), **w)
                ctx.ev("str")
                judge_repr(ctx, repr(vec), vec, [k], {k: un}, {k: X}, "nd:repr", **w)
                tex = judge_latex(ctx, vec, [k], {k: X}, {k: un}, [], "nd:latex", **w)
                judge_bundle(ctx, vec, tex, "nd:bundle", **w)
                ctx.distinct(cls, shp, n)


def four_case(ctx):
    rng = ctx.rng
    v = G.vecs()
    for _ in range(40 if ctx.quick() else 300):
        name = G.pick(rng, ["CartesianPos3D", "SphericalPos", "LonLatSphericalPos", "CylindricalPos", "MathSphericalPos"])
        q, comps, units, want, vals = make(rng, name, G.pick(rng, ["plain", "mixedshape"]))
        shp = want.shape[:-1]
        tshp = G.pick(rng, [(), shp])
        tu = G.pick(rng, ["Myr", "s", "yr", "Gyr"])
        t = rng.normal(size=tshp) * 3
        kw = {} if rng.random() < 0.5 else {"c": G.quantity(float(rng.uniform(1, 100)), "km/s")}
        w = dict(q=name, shape=shp, t=tu)
        with ctx.scope("four", **w):
            f = v.FourVector(t=G.quantity(t, tu), q=q, **kw)
            s = str(f)
            m = re.match(r"^<FourVector \(t\[(.*?)\], q=\((.*?)\)\)\n(.*)>$", s, re.S)
            ctx.check(m is not None, "four:layout", s, **w)
            if m:
                ctx.check(sameunit(m.group(1), tu), "four:time-unit", m.group(1), **w)
                cs = re.findall(r"(\w+)\[([^\]]*)\]", m.group(2))
                ctx.check([c for c, _ in cs] == [k for k, _ in comps] and all(sameunit(x, units[c]) for c, x in cs), "four:components", f"{cs} {units}", **w)
                full = np.concatenate([np.broadcast_to(t, shp)[..., None], want], -1)
                ctx.check(near(numbers(m.group(3)), full.ravel()), "four:values", f"{s} for {full.ravel()}", **w)
            t_ = squash(repr(f))
            ctx.check(re.match(r"FourVector\(" + shows(f.t, "t") + r"\),q=" + re.escape(squash(repr(f.q))), t_) is not None, "four:repr", repr(f), **w)
            tex = f._repr_latex_()
            ctx.check(tex.count("$") == 2 and f.q._repr_latex_()[1:-1] in tex and f.t._repr_latex_().strip("$") in tex, "four:latex", tex, **w)
            judge_bundle(ctx, f, tex, "four:bundle", **w)
            ctx.ev("four")
            ctx.distinct("four", name, shp, tshp, tu)


def space_case(ctx):
    import coordinax as cx
    rng = ctx.rng
    for _ in range(40 if ctx.quick() else 300):
        name = G.pick(rng, [n for n in M.POS3 if not n.startswith("Prolate")] + M.POS2)
        members = {}
        full = G.pick(rng, [(), (3,), (2, 2)])
        for key, n in (("length", name), ("speed", M.velname(name)), ("acceleration", M.accname(name))):
            if key == "length" or rng.random() < 0.7:
                members[key] = B.build(n, B.sane(rng, n, full))
        s = cx.Space(**members)
        w = dict(members=[type(x).__name__ for x in members.values()], shape=full)
        with ctx.scope("space", **w):
            t = squash(repr(s))
            ctx.check(t.startswith("Space({") and t.endswith("})"), "space:layout", repr(s), **w)
            want = "Space({" + ",".join(f"'{k}':{squash(repr(m))}" for k, m in members.items()) + "})"
            ctx.check(t == want, "space:members", f"{t} for {want}", **w)
            ctx.check(squash(str(s)) == t, "space:str", str(s), **w)
            tex = s._repr_latex_()
            at = [tex.find(m._repr_latex_()[1:-1]) for m in members.values()]
            ctx.check(all(a >= 0 for a in at) and at == sorted(at), "space:latex", tex, **w)
            judge_bundle(ctx, s, tex, "space:bundle", **w)
            ctx.ev("space")
            ctx.distinct("space", tuple(w["members"]), full)


def operator_case(ctx):
    import coordinax.ops as co
    import coordinax.frames as cf
    rng = ctx.rng
    inner = {"translation": "translation", "boost": "velocity", "velboost": "velocity", "sttrans": "translation"}
    inner2 = {"translation": "translation", "velocity": "velocity"}
    for _ in range(6 if ctx.quick() else 60):
        ops = []
        for kind, mk in O.MAKE.items():
            w = dict(kind=kind)
            with ctx.scope("operator", **w):
                op = mk(rng)
                lib = op.lib
                ops.append(lib)
                t, s = squash(repr(lib)), squash(str(lib))
                cls = type(lib).__name__
                ctx.check(t.startswith(cls + "(") and s.startswith(cls + "(") and t.endswith(")") and s.endswith(")"), "operator:class", f"{t} {s}", **w)
                if kind in inner:
                    p = getattr(lib, inner[kind])
                    ctx.check(t == f"{cls}({squash(repr(p))})", "operator:repr", f"{t}", **w)
                    ctx.check(squash(str(p)) in s, "operator:str", f"{s} does not show {p}", **w)
                if kind == "rotation":
                    n = numbers(str(lib)[len(cls):])
                    ctx.check(near(n, op.R.ravel(), 1e-6, 1e-6), "operator:rotation", str(lib), **w)
                if kind == "galilean":
                    for k in ("rotation", "translation", "velocity"):
                        ctx.check(f"{k}=" in t and squash(str(getattr(lib, k))) in s and (k == "rotation" or squash(repr(getattr(getattr(lib, k), inner2[k]))) in t), "operator:galilean", f"{k}: {t}", **w)
                ctx.ev("operator")
                ctx.distinct(kind)
        with ctx.scope("pipe"):
            order = [ops[i] for i in rng.permutation(len(ops))[:int(rng.integers(1, 5))]]
            p = co.Pipe(tuple(order))
            t = squash(repr(p))
            want = "Pipe((" + ",".join(squash(repr(o)) for o in order) + ("," if len(order) == 1 else "") + "))"
            ctx.check(t == want, "pipe:repr", f"{t} for {want}")
            nested = co.Pipe((p, order[0]))
            ctx.check(t in squash(repr(nested)) and squash(str(nested)).startswith("Pipe("), "pipe:nested", repr(nested))
            at = 0
            for o in order:
                i = squash(str(p)).find(type(o).__name__ + "(", at)
                ctx.check(i >= at, "pipe:str", str(p))
                at = i + 1
            ctx.ev("operator")
    with ctx.scope("frames"):
        for fr in (cf.ICRS(), cf.Galactocentric(), cf.NoFrame()):
            t = repr(fr)
            ctx.check(t.startswith(type(fr).__name__ + "(") and str(fr).startswith(type(fr).__name__), "frames:class", t)
        t = squash(repr(cf.Galactocentric()))
        g = cf.Galactocentric()
        for k in ("galcen", "roll", "z_sun", "galcen_v_sun"):
            x = getattr(g, k)
            ctx.check((f"{k}={squash(repr(x))}" in t) if hasattr(x, "components") else re.search(shows(x, k), t) is not None, "frames:parameters", f"{k}: {t}")


def cases(tier):
    return [(f"vector:{n}", vector_case(n)) for n in B.FIELDS] + [("nd", nd_case), ("four", four_case), ("space", space_case), ("operators", operator_case)]


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

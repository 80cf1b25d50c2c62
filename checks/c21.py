"""C21: constructors keep what they are given; the forgiving spherical constructors wrap to the same geometric point."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import collections, types
import numpy as np
from mon import runtime as R, model as M, gen as G, build as B, instrument as I

PROP = "C21"
RULE = ("a case draws, for one class, raw component values, units, dtypes, wrappers and shapes, builds the vector through every constructor form and compares each "
        "stored component bit for bit (azimuths modulo a turn) with the input; the wrap cases compare the Cartesian point of the raw numbers in the defining "
        "formulae with that of the constructed vector; distinct = (class, form, shape, dtype / wrap regime)")
ASSUMPTIONS = ["x64 on: float64 components", "RadialVel/RadialAcc/CartesianVel1D/CartesianAcc1D keep integer dtypes (documented by their doctests)",
               "from_ of a 3D family with a different 3D object dispatches on the object (by design) and is outside the statement"]
REQUIRED = {"mapping": 150, "keyword": 150, "array": 80, "quantity": 80, "same": 30, "wrap": 100, "wrap-jit": 8, "refused": 60}
SHAPES = [(), (4,), (2, 3), (2, 1, 2), (1,), (0,)]
INTKEEP = {"RadialVel", "RadialAcc", "CartesianVel1D", "CartesianAcc1D"}
STACK = {"CartesianPos1D": 1, "CartesianPos2D": 2, "CartesianPos3D": 3, "CartesianVel1D": 1, "CartesianVel2D": 2, "CartesianVel3D": 3,
         "CartesianAcc1D": 1, "CartesianAcc2D": 2, "CartesianAcc3D": 3, "RadialPos": 1, "RadialVel": 1, "RadialAcc": 1, "CartesianGeneric3D": 3,
         "CartesianPosND": None, "CartesianVelND": None, "CartesianAccND": None}
ABSTRACT = {"CartesianPos3D": "AbstractPos3D", "CartesianVel3D": "AbstractVel3D", "CartesianAcc3D": "AbstractAcc3D"}
NDF = {n: f for n, (f, _) in B.ND.items()}
GEN = [("x", M.LEN), ("y", M.LEN), ("z", M.LEN)]


def comps_of(n):
    if n == "CartesianGeneric3D":
        return GEN
    if n in NDF:
        return [(NDF[n], M.LEN)]
    return B.FIELDS[n][1]


def order_of(n):
    return 0 if n == "CartesianGeneric3D" else B.ND[n][1] if n in NDF else B.FIELDS[n][0]


def az_of(n):
    return None if order_of(n) else {"TwoSpherePos": "phi"}.get(n, M.AZIMUTH.get(n))


def same_value(ctx, got, want, az, unit, mech, **w):
    """Bit-for-bit, or the same azimuth modulo a turn and inside [0, one turn]."""
    got, want = np.asarray(got), np.asarray(want, dtype=float)
    if not ctx.check(got.shape == want.shape, mech + ":shape", f"{got.shape} want {want.shape}", **w):
        return
    if not az:
        ctx.check(bool(np.array_equal(got, want, equal_nan=True)), mech + ":value", f"stored {got} given {want}", **w)
        return
    turn = M.factor("cycle", unit) if False else 2 * np.pi * M.factor("rad", unit)
    inside = (want >= 0) & (want < turn)
    ctx.check(bool(np.all(np.where(inside, np.abs(got - want) <= 4e-16 * turn, True))), mech + ":azimuth-kept", f"stored {got} given {want} {unit}", **w)
    d = (got - want) / turn
    ctx.close((d - np.round(d)) * turn, np.zeros(got.shape), 1e-15 * (np.abs(want) + turn), mech + ":azimuth", f"{unit}", **w)
    ctx.check(bool(np.all((got >= 0) & (got <= turn * (1 + 1e-15)))), mech + ":azimuth-range", f"{got} {unit}", **w)


def draw(rng, n, shp, dt):
    """raw values + units per component; values in range for the class, azimuths up to several turns."""
    ints = np.issubdtype(dt, np.integer)
    o = order_of(n)
    vals, units = {}, {}
    if n == "CartesianGeneric3D" or n in NDF:
        pool = [G.LENU, G.SPDU, G.ACCU][o]
        if n == "CartesianGeneric3D":
            pool = G.LENU + G.SPDU + ["kg", "", "K"]
        for k, _ in comps_of(n):
            x = rng.normal(size=shp) * 50
            vals[k], units[k] = (np.round(x) if ints else x).astype(dt), G.pick(rng, pool)
        if n == "CartesianGeneric3D" and rng.random() < 0.5:
            units = dict.fromkeys(units, units["x"])
        return vals, units
    base = B.sane(rng, n, shp, ints=ints)
    for k, kind in comps_of(n):
        un = G.pick(rng, G.units_for(kind, o))
        f = M.factor(B.unit_of(n, k), un)
        if n == "ProlateSpheroidalPos" or ints:
            un, f = B.unit_of(n, k), 1.0
        x = base[k] * f
        if k == az_of(n) and not ints:
            x = x + rng.integers(-3, 4, shp) * (2 * np.pi * M.factor("rad", un))
        if not ints and dt == np.float32:
            x = np.asarray(x, np.float32)
            if kind == M.ANG and o == 0 and k != az_of(n):
                x = x * np.float32(0.999)
            if n == "ProlateSpheroidalPos":
                x = base[k].astype(np.float32)
        vals[k], units[k] = np.asarray(x).astype(dt), un
    return vals, units


def wrapq(rng, kind, o, x, un, cont):
    """One of the ways of handing over a component."""
    import jax.numpy as jnp
    import unxt as u
    from unxt.quantity import UncheckedQuantity
    from coordinax.angle import Angle
    from coordinax.distance import Distance
    arr = {"jax": jnp.asarray, "np": np.asarray, "list": lambda z: np.asarray(z).tolist()}[cont](x)
    if cont == "list" and (np.asarray(x).size == 0 or np.ndim(x) != 1):
        arr = jnp.asarray(x)
    opts = [u.Quantity, UncheckedQuantity] if cont != "list" else [u.Quantity]
    if cont != "list" and o == 0 and kind == M.LEN and bool(np.all(np.asarray(x) >= 0)):
        opts.append(Distance)
    if cont != "list" and o == 0 and kind == M.ANG:
        opts.append(Angle)
    C = opts[int(rng.integers(len(opts)))]
    return (C.from_(arr, un) if cont == "list" and isinstance(arr, list) else C(jnp.asarray(arr), un)), C.__name__


def verify(ctx, vec, n, vals, units, how, mech, wraps=None, **w):
    """Every stored component equals the given one in the given unit, in declaration order, as floats."""
    cs = comps_of(n)
    if not ctx.check(type(vec).__name__ == n, mech + ":class", f"{type(vec).__name__} want {n}", **w):
        return
    ctx.check(tuple(vec.components) == tuple(k for k, _ in cs), mech + ":order", f"{vec.components}", **w)
    for k, kind in cs:
        q = getattr(vec, k)
        un = units[k]
        import unxt as u
        ctx.check(u.unit(str(q.unit)) == u.unit(un) and (un == "" or str(u.unit(un)) == str(q.unit)), mech + ":unit", f"{k}: {q.unit} given {un}", **w)
        raw = np.asarray(vals[k])
        want = raw.astype(float)
        az = k == az_of(n) and not (wraps and wraps.get(k) == "Angle")
        same_value(ctx, q.value, want, az, un, mech, comp=k, **w)
        if not (n in INTKEEP):
            ctx.check(np.asarray(q.value).dtype == np.float64 or (wraps or {}).get(k) in ("Distance", "Angle"), mech + ":dtype", f"{k} {np.asarray(q.value).dtype}", **w)


def klass(n):
    def run(ctx):
        import jax
        import jax.numpy as jnp
        import dataclassish
        v = G.vecs()
        cls = getattr(v, n)
        rng = ctx.rng
        o = order_of(n)
        cs = comps_of(n)
        names = [k for k, _ in cs]
        for rep in range(1 if ctx.quick() else 6):
            for shp in SHAPES:
                for dt in (np.float64, np.float32, np.int32):
                    if n in NDF:
                        sh = shp + (int(rng.integers(1, 7)),)
                    else:
                        sh = shp
                    vals, units = draw(rng, n, sh, dt)
                    # independent component shapes, where the class allows them
                    if n not in NDF and len(names) > 1 and shp and rng.random() < 0.4:
                        k0 = G.pick(rng, names)
                        vals[k0] = vals[k0][(slice(0, 1),) * len(shp)].reshape(()) if vals[k0].size else vals[k0]
                    cont = G.pick(rng, ["jax", "np", "list"]) if dt == np.float64 else "jax"
                    qs, wr = {}, {}
                    for k, kind in cs:
                        qs[k], wr[k] = wrapq(rng, kind if n != "CartesianGeneric3D" else "any", o, vals[k], units[k], cont)
                        if wr[k] == "Distance" and (n.startswith("Cartesian") or k in ("z", "rho")):
                            wr[k] = ""  # those components store plain lengths
                    extra = {"Delta": G.quantity(1.0, "kpc")} if n == "ProlateSpheroidalPos" else {}
                    w = dict(cls=n, shape=sh, dt=np.dtype(dt).name, un=units, wr=wr)
                    full = {**qs, **extra}
                    items = list(full.items())
                    with ctx.scope("build", **w):
                        vec = cls(**full)
                        verify(ctx, vec, n, vals, units, "kw", "keyword", wr, **w)
                        ctx.ev("keyword")
                        if not extra:
                            verify(ctx, cls(*qs.values()), n, vals, units, "pos", "positional", wr, **w)
                        for mk in ("dict", "reversed", "proxy", "ordered"):
                            m = {"dict": dict(full), "reversed": dict(reversed(items)), "proxy": types.MappingProxyType(full), "ordered": collections.OrderedDict(items)}[mk]
                            b = cls.from_(m)
                            verify(ctx, b, n, vals, units, mk, "mapping", wr, form=mk, **w)
                            ctx.check(list(m) == (list(full) if mk != "reversed" else list(full)[::-1]), "mapping:mutated", "", **w)
                            ctx.ev("mapping")
                        if extra:
                            for x in (vec, b):
                                ctx.check(np.asarray(x.Delta.value) == 1.0 and str(x.Delta.unit) == "kpc", "mapping:Delta", f"{x.Delta}", **w)
                        ctx.distinct(n, "components", shp, np.dtype(dt).name, cont)
                        ctx.sample(cls=n, vals=vals, units=units, wrappers=wr)
                        # a vector of the same class
                        c = cls.from_(vec)
                        verify(ctx, c, n, vals, units, "same", "same", wr, **w)
                        ctx.ev("same")
                        # rebuild from its own components and through replace of one component
                        c = cls.from_({**{k: getattr(vec, k) for k in names}, **extra})
                        for k in names:
                            ctx.check(bool(np.array_equal(np.asarray(getattr(c, k).value), np.asarray(getattr(vec, k).value))) and getattr(c, k).unit == getattr(vec, k).unit,
                                      "rebuild", f"{k} {getattr(c, k)} vs {getattr(vec, k)}", **w)
                        k0 = G.pick(rng, names)
                        c = dataclassish.replace(vec, **{k0: qs[k0]})
                        verify(ctx, c, n, {k: (np.asarray(getattr(vec, k).value) if k != k0 else vals[k]) for k in names}, units, "replace", "replace", wr, **w)
                    # arrays with units and stacked quantities
                    if n in STACK:
                        stack(ctx, n, cls, shp, dt, **{"w": w})
        refuse(ctx, n, cls)
    return run


def stack(ctx, n, cls, shp, dt, w):
    import jax
    import jax.numpy as jnp
    import unxt as u
    from unxt.quantity import UncheckedQuantity
    v = G.vecs()
    rng = ctx.rng
    N = STACK[n]
    o = order_of(n)
    m = N or int(rng.integers(1, 7))
    scalar = (n in NDF or m == 1) and shp == () and rng.random() < 0.4
    full = () if scalar else shp + (m,)
    x = rng.normal(size=full) * 30
    if n == "RadialPos":
        x = np.abs(x)
    if np.issubdtype(dt, np.integer):
        x = np.round(x)
    x = x.astype(dt)
    un = G.pick(rng, [G.LENU, G.SPDU, G.ACCU][o])
    if n == "CartesianGeneric3D":
        un = G.pick(rng, ["km/s", "kg", "kpc", "", "1/Myr"])
    w = {k: z for k, z in w.items() if k in ("cls", "dt")} | dict(full=full, un=un)
    if n in NDF:
        vals, units = {NDF[n]: np.atleast_1d(x)}, {NDF[n]: un}
    else:
        ks = [k for k, _ in comps_of(n)]
        vals = {k: (x[..., i] if not scalar else x) for i, k in enumerate(ks)}
        units = dict.fromkeys(ks, un)
    uu = u.unit(un)
    forms = {"array:list": lambda: cls.from_(x.tolist(), un), "array:np": lambda: cls.from_(x, un), "array:jax": lambda: cls.from_(jnp.asarray(x), un),
             "array:unit": lambda: cls.from_(x, uu), "quantity:q": lambda: cls.from_(u.Quantity(jnp.asarray(x), un)),
             "quantity:from": lambda: cls.from_(u.Quantity.from_(x, un)),
             "quantity:jit": lambda: jax.jit(cls.from_)(u.Quantity(jnp.asarray(x), un))}
    if n == "CartesianPos3D" or n in ("CartesianPos2D", "CartesianVel2D", "CartesianAcc2D", "CartesianVel3D", "CartesianGeneric3D"):
        forms["quantity:unchecked"] = lambda: cls.from_(UncheckedQuantity(jnp.asarray(x), un))
    if n in ABSTRACT:
        A = getattr(v, ABSTRACT[n])
        forms["array:abstract"] = lambda: A.from_(x, un)
        forms["quantity:abstract"] = lambda: A.from_(u.Quantity(jnp.asarray(x), un))
        forms["quantity:abstract-same"] = lambda: A.from_(cls.from_(x, un))
    if 0 in full:
        forms.pop("array:list")  # an empty list carries no dtype or shape
    if n == "CartesianAcc1D" or n.startswith("Cartesian") and n.endswith("1D") or n.startswith("Radial"):
        pass
    for f, fn in forms.items():
        with ctx.scope(f, form=f, **w):
            out = fn()
            verify(ctx, out, n, vals, units, f, f, None, form=f, **w)
            ctx.ev(f.split(":")[0]); ctx.distinct(n, f, full, np.dtype(dt).name)
    # the wrong number of components must be refused (CartesianVel3D: see C26)
    if N and not scalar and n != "CartesianVel3D":
        for bad in {N + 1, N + 2, max(N - 1, 0)} - {N, 0}:
            y = np.zeros(shp + (bad,)) + 1.0
            ctx.must_raise(lambda: cls.from_(y, un), "refuse:count", msg=f"{n}.from_ accepted last axis {bad}", shape=y.shape, **w)
            ctx.must_raise(lambda: cls.from_(u.Quantity(y, un)), "refuse:count", msg=f"{n}.from_ accepted last axis {bad}", shape=y.shape, **w)
            ctx.ev("refused", 2)


def refuse(ctx, n, cls):
    """Missing or unknown component names are errors in every form."""
    rng = ctx.rng
    vals, units = draw(rng, n, (3,) if n in NDF else (), np.float64)
    qs = {k: G.quantity(vals[k], units[k]) for k in vals}
    extra = {"Delta": G.quantity(1.0, "kpc")} if n == "ProlateSpheroidalPos" else {}
    full = {**qs, **extra}
    for k in qs:
        part = {a: b for a, b in full.items() if a != k}
        ctx.must_raise(lambda: cls(**part), "refuse:missing", msg=f"{n} without {k}", cls=n, comp=k)
        ctx.must_raise(lambda: cls.from_(part), "refuse:missing", msg=f"{n}.from_ without {k}", cls=n, comp=k)
        ren = {("wrong_" + a if a == k else a): b for a, b in full.items()}
        ctx.must_raise(lambda: cls.from_(ren), "refuse:renamed", msg=f"{n}.from_ with renamed {k}", cls=n, comp=k)
        ctx.ev("refused", 3)
    ctx.must_raise(lambda: cls.from_({**full, "extra": G.quantity(1.0, "kpc")}), "refuse:unknown", msg=f"{n}.from_ with an unknown key", cls=n)
    ctx.ev("refused")


# ---------------------------------------------------------------- forgiving spherical constructors
SPH = {"SphericalPos": ("r", "theta", "phi"), "MathSphericalPos": ("r", "phi", "theta"), "LonLatSphericalPos": ("distance", "lat", "lon")}
CORNERS = [0.0, 45.0, 90.0, 135.0, 180.0, 225.0, 270.0, 315.0, 360.0, 405.0, 540.0, 719.0, 720.0, -45.0, -90.0, -135.0, -180.0, -225.0, -270.0, -360.0, -540.0, 1e-9, -1e-9, 180 - 1e-9, 180 + 1e-9]


def wrap(n, regime):
    def run(ctx):
        import jax
        import unxt as u
        from coordinax.angle import Angle
        from coordinax.distance import Distance, Parallax, DistanceModulus
        v = G.vecs()
        cls = getattr(v, n)
        rng = ctx.rng
        rk, pk, ak = SPH[n]
        lat = pk == "lat"
        jit = jax.jit(lambda r, p, a: cls.from_(**{rk: r, pk: p, ak: a}))
        for it in range(12 if ctx.quick() else 150):
            shp = G.pick(rng, [(), (5,), (2, 3)])
            size = shp
            pa, ps = (size if rng.random() < 0.8 else ()), (size if rng.random() < 0.8 else ())
            r = rng.uniform(0.2, 8, size)
            if regime == "corner":
                c = np.array([x for x in CORNERS if not lat or -450 < x < 270])
                p = np.asarray(rng.choice(c, ps))
                a = np.asarray(rng.choice(np.array(CORNERS), pa))
            elif regime == "inside":
                p = np.asarray(rng.uniform(-90, 90, ps) if lat else rng.uniform(0, 180, ps))
                a = np.asarray(rng.uniform(0, 360, pa))
            else:
                span = {"turns": 1200.0, "near": 300.0, "far": 36000.0}[regime]
                p = np.asarray(rng.uniform(-449, 269, ps) if lat else rng.uniform(-span, span, ps))
                a = np.asarray(rng.uniform(-span, span, pa))
            neg = rng.random(size) < (0.0 if regime == "inside" else 0.5)
            r = np.asarray(np.where(neg, -r, r))
            if rng.random() < 0.1:
                r = np.asarray(r * 0.0)
            up, ua, ur = G.pick(rng, ["deg", "rad", "arcmin"]), G.pick(rng, ["deg", "rad", "mas"]), G.pick(rng, G.LENU)
            if regime == "corner" and rng.random() < 0.7:
                up = ua = "deg"
            praw, araw, rraw = p * M.factor("deg", up), a * M.factor("deg", ua), r * M.factor("kpc", ur)
            W = [u.Quantity, Angle]
            kind = "q"
            rq = G.quantity(rraw, ur)
            if bool(np.all(r > 0)) and rng.random() < 0.6:
                kind = G.pick(rng, ["d", "plx", "dm"])
                rq = {"d": lambda: Distance(G.quantity(rraw, ur).value, ur), "plx": lambda: Parallax(G.quantity(1.0 / r, "mas").value, "mas"),
                      "dm": lambda: DistanceModulus(G.quantity(5 * np.log10(r * 1000) - 5, "mag").value, "mag")}[kind]()
            elif rng.random() < 0.2:
                kind = "neg-d"
                rq = G.quantity(rraw, ur)
            pq, aq = G.pick(rng, W)(G.quantity(praw, up).value, up), G.pick(rng, W)(G.quantity(araw, ua).value, ua)
            w = dict(cls=n, r=r, polar=p, az=a, un=(ur, up, ua), kind=kind, wr=(type(pq).__name__, type(aq).__name__))
            pr, ar = praw * M.factor(up, "rad"), araw * M.factor(ua, "rad")
            X = M.to_cart(n, {rk: r, pk: pr, ak: ar})
            tol = (np.abs(r)[..., None] if np.ndim(r) else np.abs(r)) * (1e-14 + 4e-16 * (np.max(np.abs(pr), initial=0) + np.max(np.abs(ar), initial=0))) * 8 + 1e-300
            if kind in ("plx", "dm"):
                tol = tol + np.abs(r)[..., None] * 1e-13 if np.ndim(r) else tol + np.abs(r) * 1e-13
            for mode in ("eager", "jit") if it % 4 == 0 else ("eager",):
                with ctx.scope("wrap", **w):
                    out = cls.from_(**{rk: rq, pk: pq, ak: aq}) if mode == "eager" else jit(rq, pq, aq)
                    ctx.check(type(out) is cls, "wrap:class", f"{type(out)}", **w)
                    bad = I.range_errors(out) or []
                    ctx.check(not bad, "wrap:range", "; ".join(bad), mode=mode, **w)
                    az = np.asarray(getattr(out, ak).value) * M.factor(str(getattr(out, ak).unit), "rad")
                    ctx.check(bool(np.all((az >= 0) & (az <= 2 * np.pi * (1 + 1e-15)))), "wrap:azimuth-range", f"{az}", mode=mode, **w)
                    ctx.close(M.cart(out), np.broadcast_to(X, out.shape + (3,)), tol, "wrap:point", f"{n} {mode}", mode=mode, **w)
                    ctx.check(out.shape == np.broadcast_shapes(np.shape(r), np.shape(p), np.shape(a)), "wrap:shape", f"{out.shape}", **w)
                    # radius magnitude and unit untouched, distance encodings kept
                    ro = getattr(out, rk)
                    want = {"plx": "Parallax", "dm": "DistanceModulus"}.get(kind, "Distance")
                    ctx.check(type(ro).__name__ == want, "wrap:radius-type", f"{type(ro).__name__} want {want}", **w)
                    ctx.check(bool(np.array_equal(np.abs(np.asarray(rq.value)), np.asarray(ro.value))) or kind == "dm" and bool(np.array_equal(np.asarray(rq.value), np.asarray(ro.value))),
                              "wrap:radius-value", f"{ro} given {rq}", **w)
                    ctx.check(str(ro.unit) == str(rq.unit), "wrap:radius-unit", f"{ro.unit}", **w)
                    if regime == "inside":
                        ps_ = M.val(getattr(out, pk), "rad")
                        as_ = M.val(getattr(out, ak), "rad")
                        ctx.close(np.broadcast_to(ps_, out.shape), np.broadcast_to(pr, out.shape), 1e-15 * 4, "wrap:inside-polar", "in-range polar angle moved", **w)
                        ctx.close(np.broadcast_to(as_, out.shape), np.broadcast_to(ar, out.shape), 1e-15 * 8, "wrap:inside-azimuth", "in-range azimuth moved", **w)
                    ctx.ev("wrap"); ctx.ev("wrap-" + mode)
                    ctx.distinct(n, regime, shp, kind, up, ua, bool(np.any(neg)), tuple(sorted(set(np.floor(np.atleast_1d(p).ravel() / 90).astype(int).tolist()))))
                    ctx.sample(**{k: z for k, z in w.items() if k != "wr"})
        # the plain constructor stays strict
        for badp in ([-100.0, 100.0] if lat else [-1.0, 181.0]):
            ctx.must_raise(lambda: cls(**{rk: G.quantity(1.0, "kpc"), pk: G.quantity(badp, "deg"), ak: G.quantity(1.0, "deg")}), "strict", msg=f"{n} polar {badp}")
            ctx.must_raise(lambda: cls.from_({rk: G.quantity(1.0, "kpc"), pk: G.quantity(badp, "deg"), ak: G.quantity(1.0, "deg")}), "strict", msg=f"{n} polar {badp}")
            ctx.ev("refused", 2)
        ctx.must_raise(lambda: cls(**{rk: G.quantity(-1.0, "kpc"), pk: G.quantity(10.0, "deg"), ak: G.quantity(1.0, "deg")}), "strict", msg=f"{n} r -1")
        ctx.ev("refused")
    return run


def cases(tier):
    out = [(f"cls:{n}", klass(n)) for n in [*B.FIELDS, *NDF, "CartesianGeneric3D"]]
    for n in SPH:
        for reg in ("inside", "near", "turns", "far", "corner"):
            out.append((f"wrap:{n}:{reg}", wrap(n, reg)))
    return out


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

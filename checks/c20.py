"""C20: multiplying velocities and accelerations by time integrates them component by component."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import runtime as R, model as M, gen as G, build as B

PROP = "C20"
RULE = ("every component of vector*time (and acceleration*time^2) must be the plain product of the component and the time in standard units, in the "
        "corresponding field of exactly the integral class (azimuths modulo a turn, in range); wrong dimensions and out-of-range results must raise")
ASSUMPTIONS = ["NumPy/astropy unit factors", "time is supported on the left only for Cartesian/radial accelerations and scalar times",
               "prolate spheroidal and lon*cos(lat) velocities have no integral (no focal length / no latitude): must raise"]
REQUIRED = {"vel*t": 60, "acc*t": 50, "acc*t2": 70, "t*acc": 12, "wrong": 100, "range": 8, "jit": 20, "kinematics": 10}
TU = ["s", "Myr", "yr", "day", "min", "Gyr"]
NOINT = {"ProlateSpheroidalVel", "LonCosLatSphericalVel"}
PAIRS = [((), ()), ((5,), ()), ((5,), (5,)), ((), (4,)), ((2, 3), ()), ((2, 3), (2, 3)), ((2, 1), (2, 3)), ((0,), ())]


def base_vals(rng, n, shp):
    """Positive rates, so that products over positive time are in range for radii and polar angles."""
    o, comps = B.FIELDS[n]
    out = {}
    for k, kind in comps:
        x = rng.uniform(0.05, 1.0, shp)
        if o and kind == M.ANG:
            x = rng.uniform(0.1, 20.0, shp)  # deg per Myr^o
        if n.startswith("Cartesian") or k.endswith("_z") or o == 2:
            x = x * np.where(rng.random(shp) < 0.5, -1.0, 1.0)
        out[k] = np.asarray(x)
    return out


def tq(rng, shp, power, lo=0.1, hi=3.0, neg=False, ints=False):
    """(Quantity, value in Myr^power)."""
    un = G.pick(rng, TU)
    val = np.asarray(rng.uniform(lo, hi, shp))
    if neg:
        val = val * np.where(rng.random(shp) < 0.5, -1.0, 1.0)
    raw = val * M.factor("Myr", un) ** power
    if ints:
        raw = np.maximum(1, np.round(raw))
    val = np.asarray(raw * M.factor(un, "Myr") ** power)
    import unxt as u
    unit = un if power == 1 else (un + "2" if power == 2 and rng.random() < 0.7 else f"{un} {un}" if power == 2 else f"{un}{power}")
    if ints and float(np.max(np.abs(raw), initial=0)) < 2**31:
        return u.Quantity(raw.astype(np.int32), unit), val
    return G.quantity(raw, unit), val


def target(n, power):
    """Integral class (power times) by the reference naming table."""
    p = M.posname(n) if n not in ("TwoSphereVel", "TwoSphereAcc") else "TwoSpherePos"
    o = B.FIELDS[n][0] - power
    return p if o == 0 else M.velname(p) if p != "TwoSpherePos" else "TwoSphereVel"


def judge(ctx, out, n, power, vals, units, tv, mech, **w):
    tn = target(n, power)
    if not ctx.check(type(out).__name__ == tn, mech + ":type", f"{type(out).__name__}, want {tn}", **w):
        return
    o = B.FIELDS[n][0]
    tf = B.FIELDS[tn][1]
    shp = np.broadcast_shapes(np.shape(tv), *(np.shape(x) for x in vals.values()))
    ctx.check(out.shape == shp, mech + ":shape", f"{out.shape} want {shp}", **w)
    for (k, kind), (tk, tkind) in zip(B.FIELDS[n][1], tf, strict=True):
        q = getattr(out, tk)
        std = B.unit_of(tn, tk)
        want = np.broadcast_to(vals[k] * M.factor(units[k], B.unit_of(n, k)) * tv, np.broadcast_shapes(np.shape(vals[k]), np.shape(tv)))
        try:
            f = M.factor(str(q.unit), std)
        except Exception as e:
            ctx.violation(mech + ":unit", f"{tk} has unit {q.unit}: {e}", **w)
            continue
        got = np.asarray(q.value) * f
        if not ctx.check(got.shape == want.shape, mech + ":component-shape", f"{tk} {got.shape} want {want.shape}", **w):
            continue
        if B.FIELDS[tn][0] == 0 and kind == M.ANG and tk == M.AZIMUTH.get(tn, "phi"):
            d = (got - want) / 360.0
            ctx.close((d - np.round(d)) * 360.0, np.zeros(want.shape), 1e-9 * (np.abs(want) + 1), mech + ":azimuth", f"{n}.{k}", **w)
            ctx.check(bool(np.all((got >= 0) & (got <= 360))), mech + ":azimuth-range", f"{got}", **w)
        else:
            ctx.close(got, want, 1e-11 * np.abs(want) + 1e-300, mech + ":component", f"{n}.{k} -> {tk}", **w)


def case(n):
    def run(ctx):
        import jax, quaxed.numpy as qnp
        from quaxed import lax as qlax
        rng = ctx.rng
        o = B.FIELDS[n][0]
        powers = [1] if o == 1 else [1, 2]
        for rep in range(1 if ctx.quick() else 8):
            for vs, ts in PAIRS:
                for power in powers:
                    final = o == power  # the result is a position
                    vals = base_vals(rng, n, vs)
                    neg = not final or n.startswith("Cartesian")
                    ints = rng.random() < 0.2
                    t, tv = tq(rng, ts, power, neg=neg, ints=ints, hi=2.5)
                    if final and not n.startswith("Cartesian"):
                        vals = {k: np.abs(x) if not k.endswith("_z") else x for k, x in vals.items()}
                        if ints:  # integer number of a coarse unit may be long: keep polar angles in range
                            vals = {k: x / max(1.0, float(np.max(np.abs(tv), initial=0))) if dict(B.FIELDS[n][1])[k] == M.ANG else x for k, x in vals.items()}
                    units = {}
                    for k, kind in B.FIELDS[n][1]:
                        pool = {M.LEN: [G.SPDU, G.ACCU][o - 1], M.ANG: [G.AVU, G.AAU][o - 1]}.get(kind)
                        units[k] = G.pick(rng, pool) if pool else B.unit_of(n, k)
                    raw = {k: np.asarray(vals[k] * M.factor(B.unit_of(n, k), units[k])) for k in vals}
                    w = dict(cls=n, pw=power, vshape=vs, tshape=ts, un=units, tunit=str(t.unit))
                    nm = ("vel*t" if o == 1 else "acc*t" if power == 1 else "acc*t2")
                    vec = B.build(n, raw, units)
                    before = {k: np.asarray(getattr(vec, k).value).copy() for k in raw}
                    if n in NOINT or (n == "ProlateSpheroidalAcc" and power == 2):
                        ctx.must_raise(lambda: vec * t, f"{nm}:no-integral", msg="returned a value without its focal length/latitude", **w)
                        ctx.ev("wrong"); ctx.ev(nm, 8)
                        continue
                    with ctx.scope(f"{nm}", **w):
                        form = G.pick(rng, ["mul", "qnp", "qlax"] if vs == () == ts or ts == () else ["mul"])
                        out = vec * t if form == "mul" else qnp.multiply(vec, t) if form == "qnp" and o == 0 else vec.__mul__(t) if form == "qnp" else qlax.mul(vec, t)
                        judge(ctx, out, n, power, raw, units, tv, nm, form=form, **w)
                        ctx.ev(nm); ctx.distinct(n, power, vs, ts)
                        ctx.sample(cls=n, power=power, raw=raw, units=units, t=tv)
                        if vs in ((), (5,)) and ts in ((), (5,)):
                            oj = jax.jit(lambda a, b: a * b)(vec, t)
                            judge(ctx, oj, n, power, raw, units, tv, nm + ":jit", **w)
                            ctx.ev("jit")
                        # two steps of integration: (a*t1)*t2 = a*(t1 t2)
                        if o == 2 and power == 2 and n not in ("ProlateSpheroidalAcc",) and ts == ():
                            t1, v1 = tq(rng, (), 1, lo=0.2, hi=1.5)
                            t2, v2 = tq(rng, (), 1, lo=0.2, hi=1.5)
                            if n.startswith("Cartesian") or n.startswith("Radial") and bool(np.all(raw[B.FIELDS[n][1][0][0]] >= 0)) or final:
                                judge(ctx, (vec * t1) * t2, n, 2, raw, units, v1 * v2, "two-step", **w)
                                ctx.ev("kinematics")
                    if o == 2 and (n.startswith(("Cartesian", "Radial"))) and ts == ():
                        with ctx.scope("t*acc", **w):
                            judge(ctx, t * vec, n, power, raw, units, tv, "t*acc", **w)
                            ctx.ev("t*acc")
                    elif ts == ():
                        # the left side is not supported: it must refuse, or be right
                        try:
                            lo = t * vec
                        except Exception:
                            ctx.ev("wrong")
                        else:
                            judge(ctx, lo, n, power, raw, units, tv, "left", **w)
                    for k in raw:
                        ctx.check(np.array_equal(before[k], np.asarray(getattr(vec, k).value)), "operand-changed", k, **w)
            # ---- the wrong kind of multiplication
            vec = B.build(n, base_vals(rng, n, (3,)))
            sca = B.build(n, base_vals(rng, n, ()))
            import unxt as u
            wrong = [u.Quantity(2.0, "kpc"), u.Quantity(2.0, "rad"), u.Quantity(2.0, "1/s"), u.Quantity(2.0, "s3"), u.Quantity(2.0, "km/s"), u.Quantity(2.0, "kg"),
                     u.Quantity(np.ones(3), "kpc"), u.Quantity(2, "m"), u.Quantity(2.0, "s(1/2)")]
            if o == 1:
                wrong += [u.Quantity(2.0, "s2"), u.Quantity(np.ones(3), "yr2")]
            for q in wrong:
                for x in (vec, sca):
                    w = dict(cls=n, other=str(q.unit), shape=x.shape)
                    ctx.must_raise(lambda: x * q, "wrong:right", msg=f"{n} * [{q.unit}] returned a value", **w)
                    ctx.must_raise(lambda: q * x, "wrong:left", msg=f"[{q.unit}] * {n} returned a value", **w)
                    ctx.ev("wrong", 2)
            for q in (u.Quantity(2.0, "s"), u.Quantity(2.0, "s2")):
                ctx.must_raise(lambda: vec / q, "wrong:div", msg=f"{n} / [{q.unit}]", cls=n)
                ctx.ev("wrong")
            if n not in NOINT:
                ctx.must_raise(lambda: vec * u.Quantity(np.ones(2), "s"), "wrong:shape", msg="batch 3 times 2 times", cls=n)
                ctx.ev("wrong")
            ctx.must_raise(lambda: vec * vec, "wrong:vec", msg="differential * differential", cls=n)
            # ---- a product outside the range of the position class is refused, never stored
            pos = target(n, o)
            if n in NOINT or n == "ProlateSpheroidalAcc":
                continue
            t, tv = tq(rng, (), o, lo=0.5, hi=1.0)
            for k, kind in B.FIELDS[n][1]:
                pk = k.split("_", 1)[1]
                radial = pk in ("r", "rho", "distance")
                polar = pk == M.POLARANG.get(pos, "theta" if pos == "TwoSpherePos" else None)
                if not (radial or polar):
                    continue
                for val in ([-0.5] if radial else [-400.0, 900.0]):
                    for shp in ((), (3,)):
                        bv = {kk: np.abs(x) for kk, x in base_vals(rng, n, shp).items()}
                        x = np.array(bv[k]); x[(0,) if shp else ()] = val; bv[k] = x
                        ctx.must_raise(lambda: B.build(n, bv) * t, "range:" + ("radius" if radial else "polar"), msg=f"{n}.{k}={val} accepted", cls=n, comp=k, value=val, shape=shp)
                        ctx.ev("range")
    return run


def nd_case(ctx):
    import unxt as u
    rng = ctx.rng
    v = G.vecs()
    for rep in range(12 if ctx.quick() else 100):
        N = int(rng.integers(1, 7)); shp = G.pick(rng, [(), (3,), (2, 2)])
        for cls, o, f in (("CartesianVelND", 1, "d_q"), ("CartesianAccND", 2, "d2_q")):
            x = rng.normal(size=shp + (N,))
            un = G.pick(rng, [G.SPDU, G.ACCU][o - 1])
            vec = getattr(v, cls)(G.quantity(x, un))
            for power in ([1] if o == 1 else [1, 2]):
                t, tv = tq(rng, (), power, neg=True)
                w = dict(cls=cls, N=N, shape=shp, unit=un, tunit=str(t.unit), pw=power)
                with ctx.scope("nd", **w):
                    out = vec * t
                    tn, tf = {0: ("CartesianPosND", "q"), 1: ("CartesianVelND", "d_q")}[o - power]
                    ctx.check(type(out).__name__ == tn, "nd:type", f"{type(out).__name__}", **w)
                    q = getattr(out, tf)
                    std = ["kpc", "kpc/Myr"][o - power]
                    want = x * M.factor(un, ["kpc/Myr", "kpc/Myr2"][o - 1]) * tv
                    ctx.close(np.asarray(q.value) * M.factor(str(q.unit), std), want, 1e-11 * np.abs(want) + 1e-300, "nd:component", "", **w)
                    ctx.ev("vel*t" if o == 1 else "acc*t" if power == 1 else "acc*t2"); ctx.distinct(cls, N, shp, power)
            for q in (u.Quantity(1.0, "kpc"), u.Quantity(1.0, "s3"), u.Quantity(1.0, "1/s")):
                ctx.must_raise(lambda: vec * q, "nd:wrong", msg=f"{cls}*{q.unit}", cls=cls)
                ctx.ev("wrong")


def kin_case(ctx):
    """Displacement at constant velocity/acceleration in the Cartesian families: q + v*t + a*t^2*(1/2) componentwise."""
    rng = ctx.rng
    v = G.vecs()
    for rep in range(6 if ctx.quick() else 60):
        for d in (1, 2, 3):
            shp = G.pick(rng, [(), (4,)])
            X, V, A = (rng.normal(size=shp + (d,)) for _ in range(3))
            up, us, ua = G.pick(rng, G.LENU), G.pick(rng, G.SPDU), G.pick(rng, G.ACCU)
            t, tv = tq(rng, (), 1, neg=True)
            w = dict(d=d, shape=shp, units=(up, us, ua), tunit=str(t.unit))
            with ctx.scope("kinematics", **w):
                q = getattr(v, f"CartesianPos{d}D").from_(G.quantity(X * M.factor("kpc", up), up))
                p = getattr(v, f"CartesianVel{d}D").from_(G.quantity(V * M.factor("kpc/Myr", us), us))
                a = getattr(v, f"CartesianAcc{d}D").from_(G.quantity(A * M.factor("kpc/Myr2", ua), ua))
                got = M.cart(q + p * t + 0.5 * (a * (t * t)))
                want = X + V * tv + 0.5 * A * tv**2
                ctx.close(got, want, 1e-11 * (np.abs(X) + np.abs(V * tv) + np.abs(A * tv**2)), "kinematics:position", "", **w)
                got = M.vel_cart(p + a * t, X)
                ctx.close(got, V + A * tv, 1e-11 * (np.abs(V) + np.abs(A * tv)), "kinematics:velocity", "", **w)
                ctx.ev("kinematics"); ctx.distinct("kin", d, shp)


def cases(tier):
    return [(f"cls:{n}", case(n)) for n in B.VEL + B.ACC] + [("nd", nd_case), ("kinematics", kin_case)]


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

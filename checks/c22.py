"""C22: Poincare polar variables encode exactly the cylindrical phase-space point."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import model as M, gen as G, opsmodel as O, runtime as R

PROP = "C22"
RULE = ("a case draws a Cartesian phase-space point, hands it over in some pair of representations and units, and compares the six Poincare variables with the closed "
        "form evaluated on the point, and the vector converted back with the point (|dphi/dt| for clockwise motion); vectors drawn directly in Poincare variables must "
        "describe the modelled point and come back identically; distinct = (position class, velocity class, shape, sense of rotation, regime)")
ASSUMPTIONS = ["rho > 0 and dphi/dt != 0 (at dphi/dt = 0 the canonical pair is zero and the azimuth is not encoded)",
               "prolate spheroidal positions as sources only with velocities of another family (a prolate velocity needs its focal length)"]
REQUIRED = {"forward": 90, "back": 90, "direct": 40, "clockwise": 20, "jit": 12, "refused": 6, "still": 8}
SHAPES = [(), (4,), (2, 3), (1,), (2, 2, 2), (0,)]
POSN = list(M.POS3)
VELN = [n for n in M.POS3 if not n.startswith("Prolate")] + ["coslat"]


def truth(X, V):
    rho = np.sqrt(X[..., 0] ** 2 + X[..., 1] ** 2)
    phi = np.arctan2(X[..., 1], X[..., 0])
    L = X[..., 0] * V[..., 1] - X[..., 1] * V[..., 0]
    a = np.sqrt(2 * np.abs(L))
    return dict(rho=rho, pp_phi=a * np.cos(phi), z=X[..., 2], d_rho=(X[..., 0] * V[..., 0] + X[..., 1] * V[..., 1]) / rho, d_pp_phi=a * np.sin(phi), d_z=V[..., 2]), L


def pp_factor(unit):
    """Value of 1 ``unit`` in kpc Myr^-1/2 (radians count as one)."""
    import astropy.units as au
    with au.set_enabled_equivalencies(au.dimensionless_angles()):
        return float((1.0 * au.Unit(str(unit)) ** 2).to(au.kpc**2 / au.Myr).value) ** 0.5


STD = dict(rho="kpc", z="kpc", d_rho="kpc/Myr", d_z="kpc/Myr")


def read(w):
    return {k: np.asarray(getattr(w, k).value) * (pp_factor(getattr(w, k).unit) if "pp" in k else M.factor(str(getattr(w, k).unit), STD[k])) for k in
            ("rho", "pp_phi", "z", "d_rho", "d_pp_phi", "d_z")}


def points(rng, shp, regime):
    X = O.away(rng, 3, shp)
    V = rng.normal(size=shp + (3,)) * 0.3
    if regime == "plane":
        X[..., 2] = 0.0
    if regime == "axis":  # near the axis, but off it
        X[..., :2] *= 1e-6
        V[..., :2] *= 1e-6
    if regime == "cardinal":
        k = rng.integers(0, 4, shp)
        r = rng.uniform(0.5, 5, shp)
        X[..., 0] = np.where(k == 0, r, np.where(k == 2, -r, 0.0))
        X[..., 1] = np.where(k == 1, r, np.where(k == 3, -r, 0.0))
    if regime == "ccw" or regime == "cw":
        L = X[..., 0] * V[..., 1] - X[..., 1] * V[..., 0]
        flip = (L < 0) if regime == "ccw" else (L > 0)
        V = np.where(flip[..., None], -V, V)
    return X, V


def judge_forward(ctx, w, X, V, tol, mech, **k):
    want, L = truth(X, V)
    got = read(w)
    S, sv, sp = np.abs(X).max(initial=1e-300), np.abs(V).max(initial=1e-300), np.sqrt(2 * np.abs(L))
    # d sqrt(2|L|) = dL/sqrt(2|L|); error in L ~ tol*|X||V|
    eL = tol * (np.sqrt((X**2).sum(-1)) * np.sqrt((V**2).sum(-1)))
    ep = eL / np.maximum(sp, 1e-300) + tol * sp
    for c in want:
        t = {"rho": tol * S, "z": tol * S, "d_rho": tol * sv, "d_z": tol * sv}.get(c, ep)
        ctx.close(got[c], want[c], t, mech + ":" + c, c, **k)
    return want, L


def judge_back(ctx, s, X, V, tol, mech, conv=True, **k):
    """Position and velocity (velocity with |dphi/dt|)."""
    import coordinax as cx
    ctx.check(type(s) is cx.Space and set(s.keys()) == {"length", "speed"}, mech + ":members", f"{s}", **k)
    Xb = M.cart(s["length"])
    S = np.sqrt((X**2).sum(-1))[..., None]
    sv = np.sqrt((V**2).sum(-1))[..., None]
    rho = np.sqrt(X[..., 0] ** 2 + X[..., 1] ** 2)[..., None]
    L = (X[..., 0] * V[..., 1] - X[..., 1] * V[..., 0])[..., None]
    # azimuth error amplifies rounding of the canonical pair only through the pair itself
    ctx.close(Xb, X, tol * S, mech + ":position", "point", **k)
    # reflect the angular part for clockwise motion
    ephi = np.concatenate([-X[..., 1:2], X[..., 0:1], 0 * X[..., 2:]], -1) / rho
    W = V + (np.abs(L) - L) / rho * ephi
    ctx.close(M.vel_cart(s["speed"], Xb), W, tol * (sv + np.abs(L) / rho * 0 + sv * S / rho), mech + ":velocity", "velocity", **k)


def phase(pn, regime):
    def run(ctx):
        import coordinax as cx, jax
        v = G.vecs()
        rng = ctx.rng
        for it in range(5 if ctx.quick() else 60):
            shp = SHAPES[it % len(SHAPES)] if it < len(SHAPES) else G.pick(rng, SHAPES)
            X, V = points(rng, shp, regime)
            D = 0.6 if pn.startswith("Prolate") else None
            pos, X, _ = G.make_pos(rng, pn, X, D, disttype=G.pick(rng, ["q", "auto"]))
            vn = G.pick(rng, VELN)
            cos = None
            name = "LonLatSphericalPos" if vn == "coslat" else vn
            c = M.coords_of(name, X, None)
            if vn == "coslat":
                cos = np.cos(c["lat"])
            rates = M.coord_vel(name, c, V, None)
            vel, bk = G.make_diff(rng, name, 1, rates, coslat=cos)
            V = M.cart_vel(name, c, bk, None)
            L = X[..., 0] * V[..., 1] - X[..., 1] * V[..., 0]
            k = dict(pos=pn, vel=type(vel).__name__, shape=shp, regime=regime)
            tol = 1e-8 if D else 1e-9 if regime == "axis" else 1e-11
            with ctx.scope("phase", X=X, V=V, **k):
                s = cx.Space(length=pos, speed=vel)
                if rng.random() < 0.3 and shp != (0,):
                    s = cx.Space(length=pos, speed=vel, acceleration=v.CartesianAcc3D(*[G.quantity(np.ones(shp), "km/s2")] * 3))
                fn = G.pick(rng, [lambda z: z.represent_as(v.PoincarePolarVector), lambda z: cx.represent_as(z, v.PoincarePolarVector)])
                w = fn(s)
                ctx.check(type(w) is v.PoincarePolarVector and w.shape == shp, "forward:type", f"{type(w)} {w.shape}", **k)
                judge_forward(ctx, w, X, V, tol, "forward", **k)
                ctx.ev("forward")
                if bool(np.any(L < 0)):
                    ctx.ev("clockwise")
                b = G.pick(rng, [lambda z: z.represent_as(cx.Space), lambda z: cx.represent_as(z, cx.Space)])(w)
                judge_back(ctx, b, X, V, tol * 10, "back", **k)
                ctx.ev("back")
                ctx.distinct(pn, type(vel).__name__, shp, regime, bool(np.any(L < 0)), bool(np.any(L > 0)))
                ctx.sample(X=X, V=V, **k)
                # and in the original classes: component by component
                if not D and vn != "coslat" and vn == pn and bool(np.all(L > 0)):
                    o = b.represent_as(type(pos))
                    judge_back(ctx, o, X, V, tol * 30, "back-original", **k)
                # twice forward = once
                judge_forward(ctx, fn(b), X, np.where((L > 0)[..., None], V, M.vel_cart(b["speed"], M.cart(b["length"]))), tol * 30, "idempotent", **k)
                if it % 3 == 0:
                    j = jax.jit(fn)(s)
                    judge_forward(ctx, j, X, V, tol, "jit", **k)
                    judge_back(ctx, jax.jit(lambda z: cx.represent_as(z, cx.Space))(w), X, V, tol * 10, "jit-back", **k)
                    ctx.ev("jit")
    return run


PPU = ["kpc rad(1/2) / Myr(1/2)", "pc rad(1/2) / yr(1/2)", "km rad(1/2) / s(1/2)", "kpc(1/2) km(1/2) rad(1/2) / s(1/2)", "AU deg(1/2) / Myr(1/2)"]


def direct(ctx):
    """Vectors given directly in Poincare variables, in any unit mixture."""
    import coordinax as cx, jax
    v = G.vecs()
    rng = ctx.rng
    for it in range(40 if ctx.quick() else 400):
        shp = G.pick(rng, SHAPES)
        n = rng.normal
        vals = dict(rho=rng.uniform(0.05, 9, shp), pp_phi=n(size=shp), z=n(size=shp) * 3, d_rho=n(size=shp), d_pp_phi=n(size=shp), d_z=n(size=shp))
        reg = ("generic", "cardinal", "diagonal", "lopsided")[it % 4]
        if reg == "cardinal":  # azimuth a multiple of a quarter turn, with zeros of either sign
            axis = rng.random(shp) < 0.5
            zero = rng.choice([0.0, -0.0], shp)
            vals["pp_phi"], vals["d_pp_phi"] = np.where(axis, vals["pp_phi"], zero), np.where(axis, zero, vals["d_pp_phi"])
        elif reg == "diagonal":
            vals["d_pp_phi"] = vals["pp_phi"] * rng.choice([-1.0, 1.0], shp)
        elif reg == "lopsided":
            vals[("pp_phi", "d_pp_phi")[it // 4 % 2]] *= 10 ** rng.uniform(-9, -3, shp)
        un = dict(rho=G.pick(rng, G.LENU), z=G.pick(rng, G.LENU), d_rho=G.pick(rng, G.SPDU), d_z=G.pick(rng, G.SPDU), pp_phi=G.pick(rng, PPU))
        un["d_pp_phi"] = un["pp_phi"] if rng.random() < 0.4 else G.pick(rng, PPU)
        raw = {c: np.asarray(vals[c] / (pp_factor(un[c]) if "pp" in c else M.factor(un[c], STD[c]))) for c in vals}
        k = dict(shape=shp, un=un, regime=reg)
        with ctx.scope("direct", raw=raw, **k):
            w = v.PoincarePolarVector(**{c: G.quantity(raw[c], un[c]) for c in raw})
            if rng.random() < 0.3:
                w = v.PoincarePolarVector.from_({c: getattr(w, c) for c in raw})
            s = w.represent_as(cx.Space)
            phi = np.arctan2(vals["d_pp_phi"], vals["pp_phi"])
            X = np.stack([vals["rho"] * np.cos(phi), vals["rho"] * np.sin(phi), vals["z"]], -1)
            dphi = (vals["pp_phi"] ** 2 + vals["d_pp_phi"] ** 2) / 2 / vals["rho"] ** 2
            V = np.stack([vals["d_rho"] * np.cos(phi) - vals["rho"] * dphi * np.sin(phi), vals["d_rho"] * np.sin(phi) + vals["rho"] * dphi * np.cos(phi), vals["d_z"]], -1)
            judge_back(ctx, s, X, V, 1e-11, "direct", **k)
            w2 = s.represent_as(v.PoincarePolarVector)
            a, b = read(w2), vals
            for c in vals:
                sc = np.sqrt(vals["pp_phi"] ** 2 + vals["d_pp_phi"] ** 2) if "pp" in c else np.abs(b[c])
                ctx.close(a[c], b[c], 1e-12 * (sc + 1e-9), "direct-roundtrip:" + c, c, **k)
            # the stored components are what was given, also when picked out of the batch
            for c in raw:
                ctx.check(bool(np.array_equal(np.asarray(getattr(w, c).value), raw[c])) and G.U().unit(str(getattr(w, c).unit)) == G.U().unit(un[c]),
                          "direct:stored", c, **k)
            if shp == (4,):
                s1 = w[1:3].represent_as(cx.Space)
                judge_back(ctx, s1, X[1:3], V[1:3], 1e-11, "direct-index", **k)
            ctx.ev("direct"); ctx.distinct("direct", reg, shp, tuple(sorted(un.items())))
            ctx.sample(vals=vals, **k)


def still(ctx):
    """No rotation: the pair vanishes, everything else survives; and missing members are refused."""
    import coordinax as cx
    v = G.vecs()
    rng = ctx.rng
    for it in range(12 if ctx.quick() else 60):
        rho, z, dr, dz = rng.uniform(0.2, 5), rng.normal(), rng.normal(), rng.normal()
        phi = rng.uniform(0, 360)
        with ctx.scope("still", rho=rho, z=z):
            s = cx.Space(length=v.CylindricalPos(rho=G.quantity(rho, "kpc"), phi=G.quantity(phi, "deg"), z=G.quantity(z, "kpc")),
                         speed=v.CylindricalVel(d_rho=G.quantity(dr, "kpc/Myr"), d_phi=G.quantity(0.0, "rad/Myr"), d_z=G.quantity(dz, "kpc/Myr")))
            w = s.represent_as(v.PoincarePolarVector)
            r = read(w)
            for c, x in dict(rho=rho, z=z, d_rho=dr, d_z=dz, pp_phi=0.0, d_pp_phi=0.0).items():
                ctx.close(r[c], np.asarray(x), 1e-13 * (abs(x) + 1e-3), "still:" + c, c)
            b = w.represent_as(cx.Space)
            ctx.close(np.asarray(M.val(b["speed"].d_phi, "rad/Myr")), np.asarray(0.0), 1e-15, "still:rate", "dphi/dt")
            ctx.close(np.asarray(M.val(b["length"].rho, "kpc")), np.asarray(rho), 1e-13 * rho, "still:rho-back", "")
            ctx.ev("still")
    q = v.CartesianPos3D.from_([1.0, 2, 3], "kpc")
    p = v.CartesianVel3D.from_([1.0, 2, 3], "km/s")
    ctx.must_raise(lambda: cx.Space(length=q).represent_as(v.PoincarePolarVector), "refuse:no-velocity")
    ctx.must_raise(lambda: cx.Space(speed=p).represent_as(v.PoincarePolarVector), "refuse:no-position")
    ctx.must_raise(lambda: q.represent_as(v.PoincarePolarVector), "refuse:position-alone")
    ctx.must_raise(lambda: p.represent_as(v.PoincarePolarVector, q), "refuse:velocity-alone")
    w = cx.Space(length=q, speed=p).represent_as(v.PoincarePolarVector)
    ctx.must_raise(lambda: w.represent_as(v.CartesianPos3D), "refuse:poincare-to-position")
    for c in ("rho", "z", "d_rho", "d_z"):
        kw = {x: getattr(w, x) for x in w.components}
        kw[c] = G.quantity(1.0, "s")
        ctx.must_raise(lambda: v.PoincarePolarVector(**kw), "refuse:dimension", msg=c)
        ctx.ev("refused")
    ctx.ev("refused", 5)


def cases(tier):
    out = [(f"phase:{n}:{r}", phase(n, r)) for n in POSN for r in ("generic", "plane", "cardinal", "ccw", "cw") + (("axis",) if not n.startswith("Prolate") else ())]
    return out + [("direct", direct), ("direct2", direct), ("still", still)]


if __name__ == "__main__":
    sys.exit(R.main(sys.modules[__name__]))

"""A library of closed programs over the public API, shared by the unit-independence, JAX-transformation, purity and
configuration checks.

``Prog(name, slots, fn, ...)``: ``slots`` are recipes for operands, ``fn(*operands)`` calls the library.
``operands(rng, prog, batch, unit_rng)`` builds operands whose *physical* values depend only on ``rng`` while the units
they are stored in depend on ``unit_rng`` (None -> standard units).
``phys(out)`` flattens any result into ``{path: (kind, array in standard units)}``.
"""

import dataclasses

import numpy as np
import astropy.units as au

from . import gen as G, model as M

BASES = [au.kpc, au.Myr, au.rad, au.Msun, au.mag]


@dataclasses.dataclass
class Prog:
    name: str
    slots: list
    fn: object
    vmap: bool = True       # can be mapped over the leading batch axis of every batched operand
    batch: bool = True      # operands may carry a batch shape
    tol: float = 1e-11      # relative tolerance between two evaluations in different units / compilation modes
    grad: bool = False
    int_ok: bool = True
    jit: bool = True
    unitdep: bool = False   # output units (not values) legitimately depend on input units


# --------------------------------------------------------------------------------------------- slots
def point(rng, d, shape, lo=0.5, hi=8.0):
    X = rng.normal(size=shape + (d,))
    X /= np.sqrt((X**2).sum(-1, keepdims=True))
    if d == 3:
        X[..., 2] = np.where(np.abs(X[..., 2]) < 0.1, 0.3, X[..., 2])
        X[..., 0] = np.where(np.abs(X[..., 0]) < 0.1, -0.3, X[..., 0])
    return X * rng.uniform(lo, hi, size=shape + (1,))


class Slots:
    """Builds the operands of one program; remembers the points so that velocities refer to them."""

    def __init__(self, rng, shape, urng, dtype=None):
        self.rng, self.shape, self.u, self.dtype = rng, shape, urng, dtype
        self.D = 0.4
        self.pts = {}

    def unit(self, pool):
        return pool[0] if self.u is None else G.pick(self.u, pool)

    def q(self, val, std, pool):
        un = self.unit(pool)
        return G.quantity(np.asarray(val) * M.factor(std, un), un, self.dtype)

    def pos(self, name, key=0, positive=False, shape=None):
        d = M.REPS[name][0]
        sh = self.shape if shape is None else shape
        X = point(self.rng, d, sh)
        if d == 1 or positive:
            X = np.abs(X)
        self.pts[key] = X
        return self.at(name, X)

    def at(self, name, X):
        c = M.coords_of(name, X, self.D)
        kw = {}
        for k, kind in M.REPS[name][1]:
            kw[k] = self.q(c[k], M.STD[kind], G.units_for(kind, 0))
        if name == "ProlateSpheroidalPos":
            kw["Delta"] = self.q(self.D, "kpc", ["kpc", "pc"])
        return getattr(G.vecs(), name)(**kw)

    def vel(self, name, key=0, order=1):
        """Velocity (acceleration) of the family of ``name`` at the point ``key``."""
        pn = M.posname(name)
        X = self.pts[key]
        V = self.rng.normal(size=X.shape) * 0.3
        c = M.coords_of(pn, X, self.D)
        r = M.coord_vel(pn, c, V, self.D)
        kw = {}
        for k, kind in M.REPS[pn][1]:
            f, val = M.PREF[order] + k, r[k]
            if name == "LonCosLatSphericalVel" and k == "lon":
                f, val = "d_lon_coslat", val * np.cos(c["lat"])
            kw[f] = self.q(val, M.std_unit(kind, order), G.units_for(kind, order))
        return getattr(G.vecs(), name)(**kw)

    def time(self, shape=None):
        return self.q(self.rng.uniform(0.5, 3.0, self.shape if shape is None else shape), "Myr", ["Myr", "Gyr", "yr", "s"])

    def vecq(self, n, shape=None):
        return self.q(self.rng.normal(size=(self.shape if shape is None else shape) + (n,)), "kpc", ["kpc", "pc", "km"])

    def length(self, lo=0.1, hi=5.0):
        return self.q(self.rng.uniform(lo, hi, self.shape), "kpc", G.LENU)

    def angle(self, lo=-3.0, hi=3.0):
        return self.q(self.rng.uniform(lo, hi, self.shape), "rad", G.ANGU)

    def scalar(self):
        return float(self.rng.uniform(0.5, 2.0))


def rotation_matrix(rng):
    a, b, c = rng.uniform(-3, 3, 3)
    return M.rot("z", a) @ M.rot("y", b) @ M.rot("x", c)


def operands(rng, prog, shape, urng=None, dtype=None):
    s = Slots(rng, shape, urng, dtype)
    out = []
    for sl in prog.slots:
        out.append(sl(s))
    return out


# --------------------------------------------------------------------------------------------- physical flattening
_usplit = {}


def std_of(unit):
    """(factor to standard units, canonical string) of a linear unit."""
    key = str(unit)
    if key not in _usplit:
        un = au.Unit(unit)
        if un == au.mag:
            _usplit[key] = (1.0, "mag")
        else:
            d = un.decompose(bases=BASES)
            _usplit[key] = (float(d.scale), str(au.CompositeUnit(1, d.bases, d.powers)))
    return _usplit[key]


def phys(x, path="", out=None):
    """{path: (tag, float array)}; vectors are flattened by component, with their type recorded."""
    out = {} if out is None else out
    if isinstance(x, (tuple, list)):
        out[path + ":seq"] = (type(x).__name__, np.asarray(len(x)))
        for i, y in enumerate(x):
            phys(y, f"{path}[{i}]", out)
        return out
    tn = type(x).__name__
    if isinstance(x, dict):
        for k in x:
            phys(x[k], f"{path}.{k}", out)
        return out
    if tn == "Space":
        for k in x.keys():
            phys(x[k], f"{path}<{k}>", out)
        return out
    if hasattr(x, "components") and hasattr(x, "represent_as"):
        out[path + ":type"] = (tn, np.asarray(0))
        az = {M.AZIMUTH.get(tn)}
        for f in dataclasses.fields(x):
            v = getattr(x, f.name)
            tag = "azimuth" if f.name in az else ""
            phys_leaf(v, f"{path}.{f.name}", out, tag)
        return out
    phys_leaf(x, path, out, "")
    return out


def phys_leaf(v, path, out, tag):
    if hasattr(v, "components") and hasattr(v, "represent_as"):
        phys(v, path, out)
        return
    if hasattr(v, "unit") and hasattr(v, "value"):
        f, can = std_of(v.unit)
        a = np.asarray(v.value)
        a = a.astype(np.complex128) if np.iscomplexobj(a) else a.astype(np.float64)
        out[path] = (f"{base_type(v)}|{can}|{tag}", a * f)
        return
    if isinstance(v, (bool, int, float, complex, np.generic, np.ndarray)) or hasattr(v, "dtype"):
        out[path] = (f"array|{tag}", np.asarray(v))
        return
    if hasattr(v, "__dataclass_fields__"):
        out[path + ":type"] = (type(v).__name__, np.asarray(0))
        for f in dataclasses.fields(v):
            phys(getattr(v, f.name), f"{path}.{f.name}", out)
        return
    if v is None or isinstance(v, str):
        out[path] = (repr(v), np.asarray(0))
        return
    try:  # mappings such as immutable maps
        items = dict(v)
    except Exception:  # noqa: BLE001
        out[path] = (type(v).__name__, np.asarray(0))
        return
    for k, y in items.items():
        phys(y, f"{path}.{k}", out)


def base_type(v):
    n = type(v).__name__
    return "Quantity" if n.startswith("Quantity") else n


def units(x):
    """{path: unit string} of every quantity leaf."""
    out = {}

    def walk(y, p):
        if isinstance(y, (tuple, list)):
            for i, z in enumerate(y):
                walk(z, f"{p}[{i}]")
        elif type(y).__name__ == "Space":
            for k in y.keys():
                walk(y[k], f"{p}<{k}>")
        elif hasattr(y, "unit") and hasattr(y, "value"):
            out[p] = str(y.unit)
        elif hasattr(y, "__dataclass_fields__"):
            for f in dataclasses.fields(y):
                walk(getattr(y, f.name), f"{p}.{f.name}")
    walk(x, "")
    return out


def same_units(a, b):
    """Equal unit per path, as units (kpc / Gyr and pc / Myr are one unit spelled twice; whether an operation
    returns one or the other spelling is astropy's simplification, not the library's behaviour)."""
    import astropy.units as au
    if set(a) != set(b):
        return False
    for k in a:
        if a[k] == b[k]:
            continue
        try:
            if abs(au.Unit(a[k]).to(au.Unit(b[k])) - 1) > 1e-12:
                return False
        except Exception:
            return False
    return True


def compare(ctx, got, want, tol, mech, units_too=None, **w):
    """Two flattened results agree: same structure, types, dimensions, physical values."""
    if set(got) != set(want):
        ctx.violation(mech + ":structure", f"{sorted(set(got) ^ set(want))}", **w)
        return False
    ok = True
    for p in want:
        tg, a = got[p]
        tw, b = want[p]
        if tg != tw:
            ctx.violation(mech + ":type", f"{p}: {tg} != {tw}", **w)
            ok = False
            continue
        if tw.endswith("azimuth"):
            d = np.asarray(a) - np.asarray(b)
            d = (d + np.pi) % (2 * np.pi) - np.pi
            a = np.asarray(b) + d if np.shape(a) == np.shape(b) else a
        b = np.asarray(b)
        if b.dtype.kind in "fc":
            S = np.max(np.abs(b[np.isfinite(b)]), initial=0.0) if b.size else 0.0
            S = max(S, 1.0) if "rad" in tw else S
            t = tol * S + 1e-300
        else:
            t = 0
        if b.dtype.kind == "b":
            ok &= ctx.check(np.array_equal(a, b), mech, f"{p}: {a} != {b}", **w)
            continue
        ok &= ctx.close(a, b, t, mech, f"{p}", **w)
    return ok


# --------------------------------------------------------------------------------------------- the programs
def library(full=True):
    import coordinax as cx
    import coordinax.ops as co
    import unxt as u
    import quaxed.numpy as jnp
    from plum import convert
    from coordinax.angle import Angle
    from coordinax.distance import Distance, DistanceModulus, Parallax
    from coordinax.frames import ICRS, Galactocentric

    v = G.vecs()
    P = []

    def add(name, slots, fn, **kw):
        P.append(Prog(name, slots, fn, **kw))

    pos = lambda n, k=0, **kw: (lambda s: s.pos(n, k, **kw))
    vel = lambda n, k=0: (lambda s: s.vel(n, k, 1))
    acc = lambda n, k=0: (lambda s: s.vel(n, k, 2))
    dkw = {"ProlateSpheroidalPos": {"Delta": u.Quantity(0.4, "kpc")}}

    def rep(A, B):
        cls, kw = getattr(v, B), dkw.get(B, {})
        return lambda p: p.represent_as(cls, **kw)

    # --- position conversions
    for fam in (M.POS1, M.POS2, M.POS3):
        for A in fam:
            for B in fam:
                add(f"pos:{A}->{B}", [pos(A)], rep(A, B), tol=2e-7 if "Prol" in A + B else 1e-10, grad=A != B)
    for A, B in (("CartesianPos3D", "CartesianPos2D"), ("CartesianPos3D", "RadialPos"), ("SphericalPos", "PolarPos"), ("SphericalPos", "RadialPos"),
                 ("CylindricalPos", "CartesianPos1D"), ("CartesianPos2D", "CylindricalPos"), ("PolarPos", "CartesianPos3D"),
                 ("CartesianPos1D", "CartesianPos3D"), ("MathSphericalPos", "CartesianPos2D")):
        add(f"dim:{A}->{B}", [pos(A)], rep(A, B), tol=1e-10)
    # --- velocity / acceleration conversions
    for A in ("CartesianVel3D", "CylindricalVel", "SphericalVel", "MathSphericalVel", "LonLatSphericalVel", "LonCosLatSphericalVel", "ProlateSpheroidalVel"):
        for B in ("CartesianVel3D", "SphericalVel", "LonCosLatSphericalVel", "CylindricalVel"):
            add(f"vel:{A}->{B}", [pos(M.posname(A)), vel(A)], (lambda B: lambda q, p: p.represent_as(getattr(v, B), q))(B),
                tol=1e-6 if "Prol" in A + B else 1e-9, vmap=True)
    for A, B in (("PolarVel", "CartesianVel2D"), ("CartesianVel2D", "PolarVel"), ("RadialVel", "CartesianVel1D"), ("CartesianVel1D", "RadialVel")):
        add(f"vel:{A}->{B}", [pos(M.posname(A)), vel(A)], (lambda B: lambda q, p: p.represent_as(getattr(v, B), q))(B), tol=1e-9)
    add("vel:Spherical->Cart@cartesian", [pos("CartesianPos3D"), vel("SphericalVel")], lambda q, p: p.represent_as(v.CartesianVel3D, q), tol=1e-9)
    for A, B in (("CartesianAcc3D", "SphericalAcc"), ("SphericalAcc", "CartesianAcc3D"), ("CylindricalAcc", "CartesianAcc3D"),
                 ("CartesianAcc3D", "CylindricalAcc"), ("CartesianAcc2D", "PolarAcc"), ("MathSphericalAcc", "LonLatSphericalAcc")):
        pn = M.posname(A)
        add(f"acc:{A}->{B}", [pos(pn), vel(M.velname(pn)), acc(A)], (lambda B: lambda q, p, a: a.represent_as(getattr(v, B), p, q))(B), tol=1e-9)
    # --- arithmetic
    for A, B in (("CartesianPos3D", "CartesianPos3D"), ("SphericalPos", "CylindricalPos"), ("LonLatSphericalPos", "MathSphericalPos"),
                 ("CylindricalPos", "SphericalPos"), ("PolarPos", "CartesianPos2D"), ("CartesianPos2D", "PolarPos"),
                 ("CartesianPos1D", "RadialPos"), ("RadialPos", "CartesianPos1D"), ("ProlateSpheroidalPos", "CartesianPos3D")):
        t = 1e-6 if "Prol" in A + B else 1e-9
        add(f"add:{A}+{B}", [pos(A), pos(B, 1)], lambda a, b: a + b, tol=t)
        if A != "RadialPos":
            add(f"sub:{A}-{B}", [pos(A), pos(B, 1)], lambda a, b: a - b, tol=t)
        add(f"mulpos:{A}*{B}", [pos(A), pos(B, 1)], lambda a, b: a * b, tol=t)
    for A in M.POS2 + M.POS3:
        add(f"neg:{A}", [pos(A)], lambda a: -a, tol=1e-6 if "Prol" in A else 1e-9)
        add(f"smul:{A}", [pos(A)], lambda a: 2.5 * a, tol=1e-6 if "Prol" in A else 1e-9)
        add(f"muls:{A}", [pos(A)], lambda a: a * -1.5, tol=1e-6 if "Prol" in A else 1e-9)
        add(f"div:{A}", [pos(A)], lambda a: a / 4.0, tol=1e-6 if "Prol" in A else 1e-9)
        add(f"norm:{A}", [pos(A)], lambda a: a.norm(), tol=1e-9, grad=True)
        add(f"abs:{A}", [pos(A)], abs, tol=1e-9)
    for A in M.POS1:
        add(f"norm:{A}", [pos(A)], lambda a: a.norm(), tol=1e-11)
    for A in M.POS1 + M.POS2 + M.POS3:
        add(f"pos:{A}", [pos(A)], lambda a: +a)
    for A in ("CartesianVel3D", "CartesianVel1D", "CartesianAcc3D"):
        sl = [pos(M.posname(A)), (vel if "Vel" in A else acc)(A), (vel if "Vel" in A else acc)(A)]
        add(f"add:{A}", sl, lambda q, a, b: a + b)
        add(f"neg:{A}", sl, lambda q, a, b: -a)
        if A != "CartesianVel1D":
            add(f"sub:{A}", sl, lambda q, a, b: a - b)
    for A in ("SphericalVel", "CylindricalVel", "MathSphericalVel", "LonLatSphericalVel", "PolarVel", "CartesianVel2D"):
        add(f"velnorm:{A}", [pos(M.posname(A)), vel(A)], lambda q, p: p.norm(q), tol=1e-9)
    add("velnorm:CartesianVel3D", [pos("CartesianPos3D"), vel("CartesianVel3D")], lambda q, p: p.norm())
    add("accnorm:CartesianAcc3D", [pos("CartesianPos3D"), acc("CartesianAcc3D")], lambda q, a: a.norm())
    # --- times
    for A in ("CartesianVel3D", "SphericalVel", "PolarVel", "CylindricalVel"):
        add(f"veltime:{A}", [pos(M.posname(A), positive=True), (lambda A: lambda s: abs_vel(s, A))(A), lambda s: s.time()], lambda q, p, t: p * t, tol=1e-10)
    for A in ("CartesianAcc3D", "SphericalAcc", "CylindricalAcc"):
        add(f"acctime:{A}", [pos(M.posname(A)), acc(A), lambda s: s.time()], lambda q, a, t: a * t, tol=1e-10)
        if A == "CartesianAcc3D":
            add(f"timeacc:{A}", [pos(M.posname(A)), acc(A), lambda s: s.time(())], lambda q, a, t: t * a, tol=1e-10, vmap=False)
    # --- to quantity, constructors, uconvert
    for A in M.POS1 + M.POS2 + M.POS3:
        add(f"toq:{A}", [pos(A)], lambda a: convert(a, u.Quantity), tol=1e-6 if "Prol" in A else 1e-9)
    for A in ("CartesianVel3D", "CartesianAcc3D"):
        add(f"toq:{A}", [pos("CartesianPos3D"), (vel if "Vel" in A else acc)(A)], lambda q, a: convert(a, u.Quantity))
    add("fromq:CartesianPos3D", [lambda s: s.vecq(3)], lambda q: v.CartesianPos3D.from_(q))
    add("fromq:CartesianPosND", [lambda s: s.vecq(5)], lambda q: v.CartesianPosND.from_(q))
    add("fromq:FourVector", [lambda s: s.vecq(4)], lambda q: v.FourVector.from_(q), vmap=True)
    add("wrap:Spherical", [lambda s: s.length(), lambda s: s.angle(-9, 9), lambda s: s.angle(-9, 9)],
        lambda r, th, ph: v.SphericalPos.from_(r=r, theta=th, phi=ph), tol=1e-9)
    add("wrap:LonLat", [lambda s: s.length(), lambda s: s.angle(-9, 9), lambda s: s.angle(-9, 9)],
        lambda r, th, ph: v.LonLatSphericalPos.from_(lon=th, lat=ph, distance=r), tol=1e-9)
    add("wrap:MathSpherical", [lambda s: s.length(), lambda s: s.angle(-9, 9), lambda s: s.angle(-9, 9)],
        lambda r, th, ph: v.MathSphericalPos.from_(r=r, theta=th, phi=ph), tol=1e-9)
    for A in ("CartesianPos3D", "SphericalPos", "LonLatSphericalPos", "ProlateSpheroidalPos"):
        add(f"uconvert:{A}", [pos(A)], lambda a: a.uconvert(u.unitsystem("pc", "yr", "solMass", "deg")) if not hasattr(a, "Delta")
            else a.uconvert({"area": "pc2", "angle": "deg"}))
    add("uconvert:consistent", [pos("CartesianPos3D")], lambda a: a.uconvert(cx.vecs.ToUnitsOptions.consistent))
    # --- equality
    add("eq:self", [pos("SphericalPos")], lambda a: a == a)
    add("eq:other", [pos("SphericalPos"), pos("CartesianPos3D", 1)], lambda a, b: a == b)
    # --- shapes
    add("index", [pos("SphericalPos", shape=(4, 3))], lambda a: (a[1], a[..., 0], a[::2].T, a.reshape(2, 6), a.flatten()), vmap=False, batch=False)
    # --- four-vector, space, poincare
    fv = lambda s: v.FourVector(t=s.time(), q=s.pos("CartesianPos3D", 5), c=s.q(0.3, "kpc/Myr", ["kpc/Myr", "km/s"]))
    fs = lambda s: v.FourVector(t=s.time(), q=s.pos("SphericalPos", 6), c=s.q(0.3, "kpc/Myr", ["kpc/Myr", "km/s"]))
    add("four:norm", [fs], lambda a: a.norm(), tol=1e-9)
    add("four:add", [fv, fs], lambda a, b: a + b, tol=1e-9)
    add("four:sub", [fs, fv], lambda a, b: a - b, tol=1e-9)
    add("four:neg", [fs], lambda a: -a, tol=1e-9)
    add("four:toq", [fs], lambda a: convert(a, u.Quantity), tol=1e-9)
    add("space:rep", [pos("CartesianPos3D"), vel("CartesianVel3D"), acc("CartesianAcc3D")],
        lambda q, p, a: cx.Space(length=q, speed=p, acceleration=a).represent_as(v.SphericalPos), tol=1e-9)
    add("space:rep2", [pos("SphericalPos"), vel("SphericalVel")],
        lambda q, p: cx.Space(length=q, speed=p).represent_as(v.CylindricalPos), tol=1e-9)
    add("poincare", [pos("CartesianPos3D"), vel("CartesianVel3D")],
        lambda q, p: cx.Space(length=q, speed=p).represent_as(v.PoincarePolarVector), tol=1e-9)
    # --- operators
    R1, R2 = rotation_matrix(np.random.default_rng(5)), rotation_matrix(np.random.default_rng(6))
    off3 = lambda s: s.vecq(3, ())
    spd3 = lambda s: s.q(s.rng.normal(size=3), "kpc/Myr", G.SPDU)
    time0 = lambda s: s.time(())
    OPS = {"rotation": ([], lambda: co.GalileanRotation(R1)),
           "translation": ([off3], lambda o: co.GalileanSpatialTranslation.from_(o)),
           "boost": ([spd3], lambda p: co.GalileanBoost.from_(p)),
           "sttrans": ([off3, time0], lambda o, t: co.GalileanTranslation(v.FourVector(t=t, q=v.CartesianPos3D.from_(o)))),
           "galilean": ([off3, time0, spd3], lambda o, t, p: co.GalileanOperator(rotation=R1, translation=v.FourVector(t=t, q=v.CartesianPos3D.from_(o)), velocity=p)),
           "pipe": ([off3, spd3], lambda o, p: co.GalileanRotation(R2) | co.GalileanSpatialTranslation.from_(o) | co.GalileanBoost.from_(p) | co.GalileanRotation(R1)),
           "pipe-inv": ([off3, spd3], lambda o, p: (co.GalileanRotation(R2) | co.GalileanSpatialTranslation.from_(o) | co.GalileanBoost.from_(p)).inverse),
           "identity": ([], lambda: co.Identity())}
    for on, (osl, mk) in OPS.items():
        k = len(osl)
        for rp in ("CartesianPos3D", "SphericalPos"):
            add(f"op:{on}:{rp},t", osl + [pos(rp, 7), lambda s: s.time()], (lambda mk, k: lambda *a: mk(*a[:k])(a[k], a[k + 1]))(mk, k), tol=1e-9, vmap=False)
        add(f"op:{on}:four", osl + [fs], (lambda mk, k: lambda *a: mk(*a[:k])(a[k]))(mk, k), tol=1e-9, vmap=False)
        if on in ("rotation", "translation", "identity"):
            add(f"op:{on}:pos", osl + [pos("CylindricalPos", 7)], (lambda mk, k: lambda *a: mk(*a[:k])(a[k]))(mk, k), tol=1e-9, vmap=False)
            add(f"op:{on}:q", osl + [lambda s: s.vecq(3)], (lambda mk, k: lambda *a: mk(*a[:k])(a[k]))(mk, k), tol=1e-10, vmap=False)
    add("op:velboost:vel", [spd3, pos("CartesianPos3D"), vel("CartesianVel3D")], lambda w, q, p: co.VelocityBoost.from_(w)(q, p), vmap=False)
    add("op:translation:qp", [off3, pos("SphericalPos"), vel("SphericalVel")], lambda o, q, p: co.GalileanSpatialTranslation.from_(o)(q, p), tol=1e-9, vmap=False)
    add("op:simplify", [off3, off3], lambda a, b: (co.GalileanSpatialTranslation.from_(a) | co.GalileanSpatialTranslation.from_(b) | co.GalileanRotation(R1)
                                                   | co.GalileanRotation(R2)).simplify(), tol=1e-10, vmap=False, jit=False, batch=False)
    # --- frames
    gal = lambda: Galactocentric()
    add("frame:icrs->gcf", [lambda s: s.pos("CartesianPos3D", 0, shape=()), lambda s: s.vel("CartesianVel3D", 0)],
        lambda q, p: ICRS().transform_op(gal())(q, p), tol=1e-9, batch=False, vmap=False)
    add("frame:gcf->icrs", [lambda s: s.pos("CartesianPos3D", 0, shape=()), lambda s: s.vel("CartesianVel3D", 0)],
        lambda q, p: gal().transform_op(ICRS())(q, p), tol=1e-9, batch=False, vmap=False)
    add("frame:icrs->gcf:sph", [lambda s: s.pos("LonLatSphericalPos", 0, shape=()), lambda s: s.vel("LonLatSphericalVel", 0)],
        lambda q, p: ICRS().transform_op(gal())(q, p), tol=1e-9, batch=False, vmap=False)
    # --- distances and angles
    add("dist:parallax", [lambda s: s.length()], lambda d: Distance(d.value, d.unit).parallax, tol=1e-10)
    add("dist:distmod", [lambda s: s.length()], lambda d: Distance(d.value, d.unit).distance_modulus, tol=1e-10)
    plx = lambda s: (lambda q: Parallax(q.value, q.unit))(s.q(s.rng.uniform(1e-9, 1e-6, s.shape), "rad", ["rad", "mas", "arcsec"]))
    add("plx:distance", [plx], lambda p: p.distance, tol=1e-9)
    add("plx:distmod", [plx], lambda p: p.distance_modulus, tol=1e-9)
    add("dist:arith", [lambda s: s.length(), lambda s: s.length()], lambda a, b: Distance(a.value, a.unit) * 2.0 + Distance(b.value, b.unit))
    ang = lambda s: (lambda q: Angle(q.value, q.unit))(s.angle())
    add("angle:sin", [ang], lambda a: jnp.sin(a))
    add("angle:cos", [ang], lambda a: jnp.cos(a))
    add("angle:add", [ang, ang], lambda a, b: a + b)
    add("angle:sub-mul", [ang, ang], lambda a, b: 2.0 * (a - b))
    add("angle:mul", [ang, ang], lambda a, b: a * b)
    add("normalize", [lambda s: s.vecq(3)], lambda q: cx.vecs.normalize_vector(q))
    # --- programs whose parameters are operands too, so that derivatives and unit changes reach them
    scal = lambda lo=0.5, hi=2.0: (lambda s: __import__("jax").numpy.asarray(s.rng.uniform(lo, hi)))
    ang0 = lambda s: s.q(s.rng.uniform(-3, 3), "rad", G.ANGU)
    mat = lambda s: rotation_matrix(s.rng)
    add("op:rot-angle:pos", [ang0, pos("CylindricalPos", 7)], lambda a, q: co.GalileanRotation.from_euler("z", a)(q), tol=1e-9, vmap=False)
    add("op:rot-matrix:pos", [mat, pos("SphericalPos", 7)], lambda m, q: co.GalileanRotation(m)(q), tol=1e-9, vmap=False)
    add("op:rot-matrix:q", [mat, lambda s: s.vecq(3)], lambda m, q: co.GalileanRotation(m)(q), tol=1e-10, vmap=False)
    add("op:rot-matrix:four", [mat, fv], lambda m, q: co.GalileanRotation(m)(q), tol=1e-10, vmap=False)
    add("op:rot-matrix:inv", [mat, pos("CartesianPos3D", 7)], lambda m, q: co.GalileanRotation(m).inverse(q), tol=1e-10, vmap=False)
    add("op:rot@rot:pos", [ang0, mat, pos("CartesianPos3D", 7)], lambda a, m, q: (co.GalileanRotation.from_euler("y", a) @ co.GalileanRotation(m))(q), tol=1e-9, vmap=False)
    add("op:galilean-full:four", [mat, off3, time0, spd3, fv], lambda m, o, t, p, w: co.GalileanOperator(
        rotation=co.GalileanRotation(m), translation=v.FourVector(t=t, q=v.CartesianPos3D.from_(o)), velocity=p)(w), tol=1e-9, vmap=False)
    add("op:velboost:four", [spd3, fv], lambda w, x: co.VelocityBoost.from_(w)(x), vmap=False)
    add("frame:params:icrs->gcf", [lambda s: s.q(s.rng.uniform(5, 9), "kpc", ["kpc", "pc"]), ang0, lambda s: s.q(s.rng.uniform(-1.2, 1.2), "rad", G.ANGU),
                                   lambda s: s.q(s.rng.uniform(-0.5, 0.5), "kpc", ["kpc", "pc"]), ang0, spd3,
                                   lambda s: s.pos("CartesianPos3D", 0, shape=()), lambda s: s.vel("CartesianVel3D", 0)],
        lambda d, lo, la, z, r, vs, q, p: ICRS().transform_op(Galactocentric(galcen=v.LonLatSphericalPos(lon=lo, lat=la, distance=d), z_sun=z, roll=r,
                                                                             galcen_v_sun=v.CartesianVel3D.from_(vs)))(q, p), tol=1e-9, batch=False, vmap=False)
    for A in ("CartesianPos1D", "CartesianPos3D", "SphericalPos", "MathSphericalPos", "LonLatSphericalPos", "PolarPos", "CylindricalPos"):
        add(f"smul-by:{A}", [scal(), pos(A)], lambda s, a: s * a, tol=1e-9, vmap=False)
        add(f"div-by:{A}", [pos(A), scal()], lambda a, s: a / s, tol=1e-9, vmap=False)
    add("four:div-by", [fs, scal()], lambda a, s: a / s, tol=1e-9, vmap=False)
    add("pos:Cylindrical->Prol@Delta", [pos("CylindricalPos"), lambda s: s.q(s.rng.uniform(0.2, 0.6), "kpc", ["kpc", "pc"])],
        lambda a, D: a.represent_as(v.ProlateSpheroidalPos, Delta=D), tol=2e-7, vmap=False)
    lonlat = lambda mk: (lambda s: v.LonLatSphericalPos(lon=s.angle(), lat=s.angle(-1.2, 1.2), distance=mk(s)))
    mplx = lambda s: (lambda q: Parallax(q.value, q.unit))(s.q(s.rng.uniform(1e-9, 1e-6, s.shape), "rad", ["rad", "mas", "arcsec"]))
    mdm = lambda s: DistanceModulus(G.quantity(s.rng.uniform(-3, 12, s.shape), "mag", s.dtype).value, "mag")
    add("pos:LonLat[plx]->Cartesian", [lonlat(mplx)], lambda a: a.represent_as(v.CartesianPos3D), tol=1e-9)
    add("pos:LonLat[distmod]->Cartesian", [lonlat(mdm)], lambda a: a.represent_as(v.CartesianPos3D), tol=1e-9)
    add("neg:LonLat[plx]", [lonlat(mplx)], lambda a: -a, tol=1e-9)
    for A, B in (("CartesianVel3D", "MathSphericalVel"), ("SphericalVel", "LonLatSphericalVel"), ("CylindricalVel", "ProlateSpheroidalVel")):
        kw = {"Delta": u.Quantity(0.4, "kpc")} if "Prol" in B else {}
        add(f"vel:{A}->{B}", [pos(M.posname(A)), vel(A)], (lambda B, kw: lambda q, p: p.represent_as(getattr(v, B), q, **kw))(B, kw), tol=1e-6 if kw else 1e-9)
    return P


def abs_vel(s, name):
    """A velocity whose components make a valid position when multiplied by a positive time."""
    pn = M.posname(name)
    kw = {}
    for k, kind in M.REPS[pn][1]:
        x = s.rng.uniform(0.05, 0.4, s.shape)
        kw["d_" + k] = s.q(x, M.std_unit(kind, 1), G.units_for(kind, 1))
    return getattr(G.vecs(), name)(**kw)

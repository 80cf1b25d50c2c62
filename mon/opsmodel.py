"""Operators as plain affine maps on (X [kpc], t [Myr], V [kpc/Myr]) and the ways the library can be asked to apply them."""

import numpy as np

from . import gen as G, model as M

C_KPC_MYR = None


def lightspeed():
    global C_KPC_MYR
    if C_KPC_MYR is None:
        C_KPC_MYR = M.factor("km/s", "kpc/Myr") * 299792.458
    return C_KPC_MYR


class Op:
    """One operator: kind, parameters in standard units, library object ``lib``."""

    def __init__(self, kind, lib, R=None, o=None, t0=0.0, w=None, parts=()):
        self.kind, self.lib, self.R, self.o, self.t0, self.w, self.parts = kind, lib, R, o, t0, w, list(parts)

    def apply(self, X, t, V, inv=False):
        k = self.kind
        if k == "pipe":
            for p in (self.parts[::-1] if inv else self.parts):
                X, t, V = p.apply(X, t, V, inv)
            return X, t, V
        s = -1.0 if inv else 1.0
        if k == "identity":
            return X, t, V
        if k == "translation":
            return X + s * self.o, t, V
        if k == "velboost":
            return X, t, (None if V is None else V + s * self.w)
        if k == "boost":
            return X + s * self.w * np.asarray(t)[..., None], t, V
        if k == "rotation":
            R = self.R.T if inv else self.R
            return np.einsum("ij,...j->...i", R, X), t, V
        if k == "sttrans":
            return X + s * self.o, t + s * self.t0, V
        if k == "custom":
            f = 1 / self.R if inv else self.R
            return X * f, (None if t is None else t + s * self.t0), V
        if k == "galilean":
            seq = [Op("rotation", None, R=self.R), Op("sttrans", None, o=self.o, t0=self.t0), Op("boost", None, w=self.w)]
            for p in (seq[::-1] if inv else seq):
                X, t, V = p.apply(X, t, V, inv)
            return X, t, V
        raise KeyError(k)

    def scale(self):
        """Upper bounds: (length added, time added, speed)."""
        if self.kind == "pipe":
            a = [p.scale() for p in self.parts] or [(0, 0, 0)]
            return tuple(sum(x) for x in zip(*a))
        if self.kind == "custom":
            return 0.0, abs(self.t0), 0.0
        n = lambda x: 0.0 if x is None else float(np.sqrt((np.asarray(x) ** 2).sum(-1)).max(initial=0))
        return (n(self.o) if self.kind in ("translation", "sttrans", "galilean") else 0.0, abs(self.t0) if self.kind in ("sttrans", "galilean") else 0.0,
                n(self.w) if self.kind in ("boost", "galilean", "velboost") else 0.0)


SUPPORT = {
    "translation": {"q", "pos", "q,t", "pos,t", "four", "pos,vel", "q4"},
    "boost": {"q,t", "pos,t", "four", "q4"},
    "velboost": {"q", "pos", "q,t", "pos,t", "four", "pos,vel", "vel", "q4"},
    "rotation": {"q", "pos", "q,t", "pos,t", "four", "q4"},
    "sttrans": {"q,t", "pos,t", "four", "q4"},
    "galilean": {"pos,t", "four"},
    "identity": {"q", "pos", "q,t", "pos,t", "four", "pos,vel", "vel", "q4"},
}
ACTS = {"translation": "X", "boost": "X", "velboost": "V", "rotation": "X", "sttrans": "Xt", "galilean": "Xt", "identity": "", "pipe": "XtV", "custom": "Xt"}


def forms_of(op):
    if op.kind != "pipe":
        return SUPPORT[op.kind]
    s = {"pos", "pos,t", "four", "pos,vel"}  # signatures Pipe itself defines
    for p in op.parts:
        s = s & forms_of(p)
    return s | ({"q"} if "pos" in s else set())


_CUSTOM = []


def custom_class():
    """An operator defined outside the library: q -> k q, t -> t + s (the documented way to add one: subclass and dispatch)."""
    if not _CUSTOM:
        import coordinax as cx, coordinax.ops as co, unxt as u
        from typing import Any

        class ScaleShift(co.AbstractOperator):
            k: float
            s: Any

            @property
            def is_inertial(self):
                return False

            @property
            def inverse(self):
                return ScaleShift(1 / self.k, -self.s)

        @co.AbstractOperator.__call__.dispatch
        def call(self: ScaleShift, q: cx.vecs.AbstractPos1D | cx.vecs.AbstractPos2D | cx.vecs.AbstractPos3D, /, **_: Any):
            return q * self.k

        @co.AbstractOperator.__call__.dispatch
        def call(self: ScaleShift, q: cx.vecs.AbstractPos1D | cx.vecs.AbstractPos2D | cx.vecs.AbstractPos3D, t: u.Quantity["time"], /, **_: Any):
            return q * self.k, t + self.s

        _CUSTOM.append(ScaleShift)
    return _CUSTOM[0]


def custom(rng):
    k = float(rng.choice([-1.0, 1.0])) * 2.0 ** int(rng.integers(-1, 3)) * 1.25
    t0 = float(rng.uniform(-3, 3))
    q = quant(rng, t0, "Myr", ["Myr", "Gyr", "s"])
    return Op("custom", custom_class()(k, q), R=k, t0=float(np.asarray(q.value)) * M.factor(str(q.unit), "Myr"))


def random_rotation(rng, special=None):
    if special == "identity":
        return np.eye(3)
    if special == "quarter":
        R = np.eye(3)
        for ax in "xyz":
            R = M.rot(ax, np.pi / 2 * int(rng.integers(4))) @ R
        return np.round(R)
    a, b, c = rng.uniform(-np.pi, np.pi, 3)
    if special == "small":
        a, b, c = a * 1e-3, b * 1e-3, c * 1e-3
    return M.rot("z", a) @ M.rot("y", b) @ M.rot("x", c)


def rand_vec(rng, d=3, lo=1e-2, hi=30.0):
    X = rng.normal(size=d)
    return X / np.sqrt((X**2).sum()) * 10 ** rng.uniform(np.log10(lo), np.log10(hi))


def quant(rng, x, std, pool, form=None):
    un = G.pick(rng, pool)
    return G.quantity(np.asarray(x) * M.factor(std, un), un)


def translation(rng, d=3, o=None, form=None):
    import coordinax.ops as co

    o = rand_vec(rng, d) if o is None else np.asarray(o, float)
    v = G.vecs()
    form = form or G.pick(rng, ["q", "from_", "pos", "list", "mapping", "other"])
    S = co.GalileanSpatialTranslation
    if form == "pos":
        name = G.pick(rng, {1: ["CartesianPos1D"], 2: M.POS2, 3: [n for n in M.POS3 if n != "ProlateSpheroidalPos"]}[d])
        if not np.any(o):
            name = f"CartesianPos{d}D"
        p, o, _ = G.make_pos(rng, name, o, disttype="q")
        return Op("translation", S(p), o=o)
    q = quant(rng, o, "kpc", ["kpc", "pc", "km"])
    if form == "q":
        lib = S(q)
    elif form == "list":
        lib = S.from_([float(x) for x in np.asarray(q.value)], str(q.unit))
    elif form == "mapping":
        lib = S.from_({"translation": q})
    elif form == "other":
        lib = S.from_(S(S(q)))
    else:
        lib = S.from_(q)
    return Op("translation", lib, o=np.asarray(q.value) * M.factor(str(q.unit), "kpc"))


def speedvec(rng, w=None, d=3):
    w = rand_vec(rng, d, 1e-3, 1.0) if w is None else np.asarray(w, float)
    q = quant(rng, w, "kpc/Myr", ["kpc/Myr", "km/s", "pc/yr"])
    return q, np.asarray(q.value) * M.factor(str(q.unit), "kpc/Myr")


def boost(rng, w=None, kind="boost", form=None, d=3):
    import coordinax.ops as co

    cls = co.GalileanBoost if kind == "boost" else co.VelocityBoost
    q, w = speedvec(rng, w, d)
    v = G.vecs()
    form = form or G.pick(rng, ["from_", "q", "vel", "list", "mapping"])
    if d != 3:
        form = "vel"
    vel = lambda: getattr(v, f"CartesianVel{d}D").from_(q)
    lib = {"from_": lambda: cls.from_(q), "q": lambda: cls(q), "vel": lambda: cls(vel()), "list": lambda: cls.from_([float(x) for x in np.asarray(q.value)], str(q.unit)),
           "mapping": lambda: cls.from_({"velocity": q})}[form]()
    return Op(kind, lib, w=w)


def rotation(rng, special=None, form=None, R=None):
    import coordinax.ops as co
    import jax.numpy as jnp

    form = form or G.pick(rng, ["matrix", "from_", "euler", "EULER", "quantity", "scipy", "other"])
    C = co.GalileanRotation
    if form in ("euler", "EULER") and special is None and R is None:
        n = int(rng.integers(1, 4))
        seq = "".join(rng.choice(list("xyz"), 1)[0] for _ in range(n))
        while any(a == b for a, b in zip(seq, seq[1:])):
            seq = "".join(rng.choice(list("xyz"), 1)[0] for _ in range(n))
        ang = rng.uniform(-170, 170, n)
        if n == 3:
            ang[1] = rng.uniform(10, 80)
        un = G.pick(rng, ["deg", "rad", "arcmin"])
        a = G.quantity(ang * M.factor("deg", un) if n > 1 else float(ang[0] * M.factor("deg", un)), un)
        if rng.random() < 0.3:
            from coordinax.angle import Angle
            a = Angle(a.value, un)
        active = lambda ax, x: M.rot(ax, np.deg2rad(x)).T
        Rm = np.eye(3)
        for ax, x in zip(seq, ang):
            Rm = active(ax, x) @ Rm if form == "euler" else Rm @ active(ax, x)
        return Op("rotation", C.from_euler(seq if form == "euler" else seq.upper(), a), R=Rm)
    R = random_rotation(rng, special) if R is None else R
    A = jnp.asarray(R)
    if form == "from_":
        lib = C.from_(A)
    elif form == "quantity":
        lib = C(G.quantity(R, ""))
    elif form == "scipy":
        from jax.scipy.spatial.transform import Rotation
        lib = C.from_(Rotation.from_matrix(A))
    elif form == "other":
        lib = C.from_(C(C(A)))
    else:
        lib = C(A)
    return Op("rotation", lib, R=np.asarray(R, float))


def fourparam(rng, o=None, t0=None):
    v = G.vecs()
    o = rand_vec(rng) if o is None else np.asarray(o, float)
    t0 = float(rng.uniform(-3, 3)) if t0 is None else t0
    tq = quant(rng, t0, "Myr", ["Myr", "Gyr", "yr"])
    t0 = float(np.asarray(tq.value)) * M.factor(str(tq.unit), "Myr")
    form = G.pick(rng, ["four", "foursph", "q4"]) if np.any(o) else "four"
    if form == "q4":
        x = np.concatenate([[t0 * lightspeed()], o])
        q = quant(rng, x, "kpc", ["kpc", "pc"])
        return q, o, t0
    p, o, _ = G.make_pos(rng, "CartesianPos3D" if form == "four" else G.pick(rng, ["SphericalPos", "CylindricalPos", "LonLatSphericalPos"]), o, disttype="q")
    return v.FourVector(t=tq, q=p), o, t0


def sttrans(rng, o=None, t0=None):
    import coordinax.ops as co

    f, o, t0 = fourparam(rng, o, t0)
    C = co.GalileanTranslation
    return Op("sttrans", C(f) if rng.random() < 0.5 else C.from_(f), o=o, t0=t0)


def galilean(rng, R=None, o=None, t0=None, w=None):
    import coordinax.ops as co

    r = rotation(rng, R=R)
    f, o, t0 = fourparam(rng, o, t0)
    b = boost(rng, w, form=None)
    wrap = rng.random()
    kw = dict(rotation=r.lib if wrap < 0.7 else np.asarray(r.R), translation=f if rng.random() < 0.5 else co.GalileanTranslation(f),
              velocity=b.lib if rng.random() < 0.5 else b.lib.velocity)
    if wrap >= 0.7:
        import jax.numpy as jnp
        kw["rotation"] = jnp.asarray(r.R)
    return Op("galilean", co.GalileanOperator(**kw), R=r.R, o=o, t0=t0, w=b.w)


def identity(rng):
    import coordinax.ops as co
    return Op("identity", co.Identity())


MAKE = {"translation": translation, "boost": boost, "velboost": lambda rng: boost(rng, kind="velboost"), "rotation": rotation, "sttrans": sttrans,
        "galilean": galilean, "identity": identity}


# --------------------------------------------------------------------------------------------- inputs
class Inp:
    def __init__(self, form, args, X, t, V, name, D, c=None, d=3):
        self.form, self.args, self.X, self.t, self.V, self.name, self.D, self.c, self.d = form, args, X, t, V, name, D, c, d


def away(rng, d, shape, lo=0.3, hi=10.0):
    """Random points not close to any axis or branch cut."""
    X = rng.normal(size=shape + (d,))
    X /= np.sqrt((X**2).sum(-1, keepdims=True))
    X = np.where(np.abs(X) < 0.15, np.where(X < 0, -0.25, 0.25), X)
    return X * rng.uniform(lo, hi, shape + (1,))


def make_input(rng, form, name="CartesianPos3D", shape=(), tshape=None, D=0.7, d=3, disttype="auto"):
    v, u = G.vecs(), G.U()
    X = away(rng, d, shape)
    if d == 1:
        X = np.abs(X)
    t = rng.uniform(-5, 5, shape if tshape is None else tshape)
    tq = quant(rng, t, "Myr", ["Myr", "Gyr", "yr", "s"])
    t = np.asarray(tq.value) * M.factor(str(tq.unit), "Myr")
    c = None
    V = None
    if form in ("q", "q,t", "q4"):
        if form == "q4":
            x = np.concatenate([(np.broadcast_to(t, shape) * lightspeed())[..., None], X], -1)
            q = quant(rng, x, "kpc", ["kpc", "pc", "km"])
            return Inp(form, (q,), X, np.broadcast_to(t, shape), None, "q", None, lightspeed(), d)
        q = quant(rng, X, "kpc", ["kpc", "pc", "km"])
        X = np.asarray(q.value) * M.factor(str(q.unit), "kpc")
        return Inp(form, (q,) if form == "q" else (q, tq), X, None if form == "q" else t, None, "q", None, None, d)
    Dd = D if "Prolate" in name else None
    if form == "vel":
        V = rng.normal(size=shape + (3,)) * 0.2
        q = quant(rng, V, "kpc/Myr", ["kpc/Myr", "km/s"])
        return Inp(form, (v.CartesianVel3D.from_(q),), None, None, V, "vel", None, None, d)
    p, X, _ = G.make_pos(rng, name, X, Dd, disttype=disttype)
    if form == "pos":
        return Inp(form, (p,), X, None, None, name, Dd, None, d)
    if form == "pos,t":
        return Inp(form, (p, tq), X, t, None, name, Dd, None, d)
    if form == "four":
        c = float(rng.uniform(0.1, 400))
        cq = quant(rng, c, "kpc/Myr", ["kpc/Myr", "km/s"])
        return Inp(form, (v.FourVector(t=tq, q=p, c=cq),), X, t, None, name, Dd, c, d)
    if form == "pos,vel":
        return Inp(form, (p,), X, None, None, name, Dd, None, d)
    raise KeyError(form)


def add_velocity(rng, inp, velname):
    """Complete a (position, velocity) input with a velocity of class ``velname``."""
    X = inp.X
    V = rng.normal(size=X.shape) * 0.3
    pn = M.posname(velname)
    c = M.coords_of(pn, X, inp.D)
    rates = M.coord_vel(pn, c, V, inp.D)
    coslat = np.cos(c["lat"]) if velname == "LonCosLatSphericalVel" else None
    vel, back = G.make_diff(rng, pn, 1, rates, coslat=coslat)
    inp.V = M.cart_vel(pn, c, back, inp.D)
    inp.args = inp.args + (vel,)
    inp.velname = velname
    return inp


def read(inp, out):
    """(X, t, V, problems) physically denoted by the result of applying an operator to ``inp``."""
    bad = []
    f = inp.form
    arg = inp.args[0]

    def pos(o):
        if type(o) is not type(arg):
            bad.append(f"type {type(o).__name__} from {type(arg).__name__}")
        if inp.D is not None and hasattr(o, "Delta"):
            if abs(float(np.max(np.abs(M.delta_kpc(o) - inp.D)))) > 1e-12 * inp.D:
                bad.append("Delta changed")
        if "shape" not in bad and hasattr(o, "shape") and o.shape != arg.shape:
            bad.append(f"shape {o.shape} from {arg.shape}")
        return M.cart(o)

    def tm(q):
        return np.asarray(q.value) * M.factor(str(q.unit), "Myr")

    if f in ("q", "q,t", "q4"):
        q = out
        t = None
        if f == "q,t":
            if not (isinstance(out, tuple) and len(out) == 2):
                return None, None, None, [f"expected a pair, got {type(out)}"]
            q, t = out[0], tm(out[1])
        if type(q).__name__.split("[")[0] != "Quantity" or np.shape(q.value) != np.shape(arg.value):
            bad.append(f"{type(q).__name__} of shape {np.shape(getattr(q, 'value', None))}")
        x = np.asarray(q.value) * M.factor(str(q.unit), "kpc")
        if f == "q4":
            return x[..., 1:], x[..., 0] / lightspeed(), None, bad
        return x, t, None, bad
    if f == "vel":
        if type(out) is not type(arg):
            bad.append(f"type {type(out)}")
        return None, None, M.vel_cart(out, np.zeros(np.shape(inp.V))), bad
    if f == "pos":
        return pos(out), None, None, bad
    if f == "pos,t":
        if not (isinstance(out, tuple) and len(out) == 2):
            return None, None, None, [f"expected a pair, got {type(out)}"]
        return pos(out[0]), tm(out[1]), None, bad
    if f == "four":
        if type(out).__name__ != "FourVector":
            return None, None, None, [f"expected a FourVector, got {type(out).__name__}"]
        if type(out.q) is not type(arg.q):
            bad.append(f"spatial type {type(out.q).__name__}")
        cc = float(np.asarray(out.c.value)) * M.factor(str(out.c.unit), "kpc/Myr")
        if abs(cc - inp.c) > 1e-12 * inp.c:
            bad.append(f"speed of light {cc} from {inp.c}")
        if inp.D is not None and abs(M.delta_kpc(out.q) - inp.D) > 1e-12 * inp.D:
            bad.append("Delta changed")
        return M.cart(out.q), tm(out.t), None, bad
    if f == "pos,vel":
        if not (isinstance(out, tuple) and len(out) == 2):
            return None, None, None, [f"expected a pair, got {type(out)}"]
        X = pos(out[0])
        if type(out[1]) is not type(inp.args[1]):
            bad.append(f"velocity type {type(out[1]).__name__}")
            return X, None, None, bad
        return X, None, M.vel_cart(out[1], X, inp.D if "Prolate" in type(out[1]).__name__ else None), bad
    raise KeyError(f)


def bounds(op, inp):
    """(position, time, velocity) tolerances: rounding at the largest intermediate magnitude."""
    L, T, W = op.scale()
    S = 0.0 if inp.X is None else float(np.sqrt((inp.X**2).sum(-1)).max(initial=0))
    tt = 0.0 if inp.t is None else float(np.abs(inp.t).max(initial=0))
    if inp.form == "q4":
        S = max(S, tt * lightspeed())
    S = S + L + W * (tt + T)
    S *= float(np.prod([max(abs(p.R), 1 / abs(p.R)) for p in (op.parts or [op]) if p.kind == "custom"] or [1.0]))
    n = max(1, len(op.parts))
    tx = 3e-11 * S * n
    if inp.D is not None:
        tx = 5e-7 * max(S, inp.D) * n
    return tx, 1e-12 * (tt + T) + 1e-300, 1e-10

"""Hostile input generators.  Truth is computed from the raw numbers, never read back from the library."""

import numpy as np

from . import model as M

LENU = ["kpc", "pc", "m", "km", "AU", "Mpc"]
ANGU = ["rad", "deg", "arcmin", "mas"]
SPDU = ["km/s", "pc/Myr", "m/s", "kpc/Gyr"]
AVU = ["rad/Myr", "mas/yr", "deg/s", "rad/s"]
ACCU = ["km/s2", "pc/Myr2", "kpc/Gyr2", "m/s2"]
AAU = ["rad/Myr2", "mas/yr2", "deg/s2"]


def U():
    import unxt

    return unxt


def vecs():
    import coordinax.vecs as v

    return v


def units_for(kind, order):
    if kind == M.LEN:
        return [LENU, SPDU, ACCU][order]
    if kind == M.ANG:
        return [ANGU, AVU, AAU][order]
    return [["kpc2", "pc2", "AU2", "km2"], ["kpc2/Myr", "pc2/s", "km2/s"], ["kpc2/Myr2", "km2/s2"]][order]


# ------------------------------------------------------------------ points
def points(rng, d, n, regime="generic", scale=None):
    """(n, d) Cartesian points in kpc."""
    X = rng.normal(size=(n, d))
    X /= np.sqrt((X**2).sum(-1, keepdims=True))
    mag = 10.0 ** rng.uniform(-2, 2, size=(n, 1)) if scale is None else scale
    if regime == "generic":
        if d == 3:  # keep away from axis / equator / radial degeneracy
            th = np.arccos(rng.uniform(-0.95, 0.95, n))
            ph = rng.uniform(0, 2 * np.pi, n)
            X = np.stack([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], -1)
            X[:, 2] = np.where(np.abs(X[:, 2]) < 0.05, 0.2, X[:, 2])
        return X * mag
    if regime == "octants":
        k = np.arange(n)
        s = np.stack([np.where((k >> i) & 1, -1.0, 1.0) for i in range(d)], -1)
        return np.abs(X + 0.1) * s * mag
    if regime == "axes":
        X = np.zeros((n, d))
        for i in range(n):
            X[i, i % d] = (1.0 if (i // d) % 2 == 0 else -1.0)
            if (i // (2 * d)) % 2:
                X[i, :] = np.where(X[i, :] == 0, -0.0, X[i, :])
        return X * mag
    if regime == "planes":
        X = rng.normal(size=(n, d))
        for i in range(n):
            X[i, i % d] = 0.0 if (i // d) % 2 == 0 else -0.0
        return X * mag
    if regime == "nearaxis":
        X = rng.normal(size=(n, d))
        for i in range(n):
            j = i % d
            e = 10.0 ** rng.uniform(-14, -4)
            keep = X[i, j]
            X[i] *= e
            X[i, j] = keep
        return X * mag
    if regime == "tiny":
        return X * 10.0 ** rng.uniform(-12, -8, size=(n, 1))
    if regime == "huge":
        return X * 10.0 ** rng.uniform(5, 9, size=(n, 1))
    if regime == "branch":
        X = rng.normal(size=(n, d))
        X[:, 0] = -np.abs(X[:, 0])
        if d > 1:
            X[:, 1] = np.where(np.arange(n) % 3 == 0, 0.0, np.where(np.arange(n) % 3 == 1, -0.0, 1e-15 * (-1.0) ** np.arange(n)))
        return X * mag
    if regime == "integers":
        return rng.integers(-9, 10, size=(n, d)).astype(float)
    raise KeyError(regime)


REGIMES = ["generic", "octants", "axes", "planes", "nearaxis", "tiny", "huge", "branch", "integers"]


def quantity(v, unit, dtype=None):
    import jax.numpy as jnp

    return U().Quantity(jnp.asarray(v, dtype=dtype), unit)


DEEP = [(2, 3), (2, 3), (2, 1, 3), (2, 2, 2), (1, 2, 1), (3, 1, 2, 2)]


def deep(rng):
    """A batch shape with two or more axes."""
    return DEEP[int(rng.integers(len(DEEP)))]


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


# ------------------------------------------------------------------ positions
def make_pos(rng, name, X, Delta=None, units="mixed", angtype="auto", disttype="auto", az_shift=True):
    """Build a position of class ``name`` at points X.

    Returns (vec, Xtrue, info): Xtrue is the point computed from the numbers actually handed over.
    """
    v = vecs()
    c = M.coords_of(name, X, Delta)
    kw, raw, info = {}, {}, {"units": {}}
    for k, kind in M.REPS[name][1]:
        pool = units_for(kind, 0)
        un = pool[0] if units == "std" else pick(rng, pool)
        a = np.asarray(c[k], dtype=np.float64)
        if name == "ProlateSpheroidalPos" and kind == M.AREA:
            D2 = float(Delta) ** 2
            safe = a.size and np.all(c["mu"] > D2 * (1 + 1e-9)) and np.all(np.abs(c["nu"]) < D2 * (1 - 1e-9))
            if not safe:
                un = "kpc2"  # mu>=Delta^2>=|nu| must survive unit rounding
        if k == M.AZIMUTH.get(name) and az_shift:
            a = a + 2 * np.pi * rng.integers(-1, 2, size=a.shape)
        if kind == M.LEN and M.DISTCOMP.get(name) == k:
            t = pick(rng, ["q", "q", "Distance", "Parallax", "DistanceModulus"]) if disttype == "auto" else disttype
            if t in ("Parallax", "DistanceModulus") and not (np.all(a > 1e-7) and np.all(a < 1e4)):
                t = "q"
        else:
            t = "q"
        if kind == M.ANG:
            t = pick(rng, ["q", "Angle"]) if angtype == "auto" else angtype
        obj, back = make_component(kind, t, a, un)
        kw[k], raw[k] = obj, back
        info["units"][k] = (t, str(un))
    if name == "ProlateSpheroidalPos":
        D = float(Delta)
        kw["Delta"] = quantity(D, "kpc")
    vec = getattr(v, name)(**kw)
    return vec, M.to_cart(name, raw, Delta), info


def make_component(kind, t, a, un):
    """A library object holding physical value ``a`` (std units) expressed in ``un``; and the value it encodes."""
    import jax.numpy as jnp

    u = U()
    if t == "Parallax":
        from coordinax.distance import Parallax

        p = np.arctan(M.AU_KPC / a)
        pm = p * M.factor("rad", "mas")
        return Parallax(jnp.asarray(pm), "mas"), M.AU_KPC / np.tan(pm * M.factor("mas", "rad"))
    if t == "DistanceModulus":
        from coordinax.distance import DistanceModulus

        m = 5 * np.log10(a * 1e3) - 5
        return DistanceModulus(jnp.asarray(m), "mag"), 10 ** (m / 5 + 1) * 1e-3
    std = M.STD[kind]
    raw = a * M.factor(std, un)
    back = raw * M.factor(un, std)
    if t == "Distance":
        from coordinax.distance import Distance

        return Distance(jnp.asarray(raw), un), back
    if t == "Angle":
        from coordinax.angle import Angle

        return Angle(jnp.asarray(raw), un), back
    return u.Quantity(jnp.asarray(raw), un), back


def make_diff(rng, pos_name, order, rates, units="mixed", coslat=None):
    """Velocity (order 1) / acceleration (order 2) object of the family of ``pos_name`` with given std-unit rates.
    With ``coslat`` (array cos(lat)) builds LonCosLatSphericalVel.  Returns (obj, exact rates)."""
    v = vecs()
    cname = (M.velname if order == 1 else M.accname)(pos_name)
    if coslat is not None:
        cname = "LonCosLatSphericalVel"
    kw, back = {}, {}
    for k, kind in M.REPS[pos_name][1]:
        pool = units_for(kind, order)
        un = pool[0] if units == "std" else pick(rng, pool)
        std = M.std_unit(kind, order)
        a = np.asarray(rates[k], dtype=np.float64)
        f = M.PREF[order] + k
        if coslat is not None and k == "lon":
            a = a * coslat
            f = "d_lon_coslat"
        rawv = a * M.factor(std, un)
        kw[f] = quantity(rawv, un)
        b = rawv * M.factor(un, std)
        back[k] = b / coslat if (coslat is not None and k == "lon") else b
    return getattr(v, cname)(**kw), back


def rand_rates(rng, pos_name, X, Delta=None, speed=1.0, order=1):
    """Physically comparable random coordinate rates at points X (std units)."""
    n = X.shape[:-1]
    S = np.sqrt((X**2).sum(-1)) + 1e-300
    out = {}
    V = rng.normal(size=X.shape) * S[..., None] * speed
    c = M.coords_of(pos_name, X, Delta)
    out = M.coord_vel(pos_name, c, V, Delta)
    return out, V

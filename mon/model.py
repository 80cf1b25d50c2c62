"""Independent reference model (NumPy float64, no coordinax / JAX code).

Everything is expressed in the standard units kpc, rad, Myr.  Coordinates of a representation are a dict
``name -> array``; points are arrays ``(..., d)`` of Cartesian kpc.  All coordinate->Cartesian formulae are
written so they accept complex input, so first derivatives come from the complex step (exact to rounding)
and second derivatives from central differences of the complex step or, where exact, by hand.
"""

import numpy as np
import astropy.units as au

KPC, MYR, RAD = au.kpc, au.Myr, au.rad
EPS = 2.0**-52
AU_KPC = au.AU.to(au.kpc)

# ---------------------------------------------------------------- units
LEN, ANG, AREA = "L", "A", "L2"
STD = {LEN: KPC, ANG: RAD, AREA: KPC**2}


def std_unit(kind, order=0):
    un = STD[kind]
    for _ in range(order):
        un = un / MYR
    return un


_fcache = {}


def factor(unit, to):
    """Multiplicative factor between two units (both linear)."""
    key = (str(unit), str(to))
    if key not in _fcache:
        _fcache[key] = float(au.Unit(unit).to(au.Unit(to), 1.0))
    return _fcache[key]


def val(q, unit):
    """Value of a (coordinax/unxt) quantity in ``unit`` as float64 numpy."""
    v = np.asarray(q.value)
    v = v.astype(np.float64) if not np.iscomplexobj(v) else v.astype(np.complex128)
    return v * factor(q.unit, unit)


def dist_kpc(q):
    """Length of a distance-like quantity (Distance, Parallax, DistanceModulus, length) in kpc."""
    tn = type(q).__name__
    if tn == "Parallax":
        return AU_KPC / np.tan(val(q, RAD))
    if tn == "DistanceModulus":
        v = np.asarray(q.value).astype(np.float64)
        return 10.0 ** (v / 5.0 + 1.0) * 1e-3
    return val(q, KPC)


# ---------------------------------------------------------------- representations
# name: (dim, [(component, kind)], to_cart(dict, Delta) -> list of arrays)
def _abs(x):
    return x * np.sign(np.real(x))


def _sgn(x):
    return np.sign(np.real(x))


def _cart(c, D=None):
    return [c[k] for k in ("x", "y", "z") if k in c]


def _radial(c, D=None):
    return [c["r"]]


def _polar(c, D=None):
    return [c["r"] * np.cos(c["phi"]), c["r"] * np.sin(c["phi"])]


def _cyl(c, D=None):
    return [c["rho"] * np.cos(c["phi"]), c["rho"] * np.sin(c["phi"]), c["z"]]


def _sph(c, D=None):
    s = np.sin(c["theta"])
    return [c["r"] * s * np.cos(c["phi"]), c["r"] * s * np.sin(c["phi"]), c["r"] * np.cos(c["theta"])]


def _msph(c, D=None):
    s = np.sin(c["phi"])
    return [c["r"] * s * np.cos(c["theta"]), c["r"] * s * np.sin(c["theta"]), c["r"] * np.cos(c["phi"])]


def _llsph(c, D=None):
    k = np.cos(c["lat"])
    return [c["distance"] * k * np.cos(c["lon"]), c["distance"] * k * np.sin(c["lon"]), c["distance"] * np.sin(c["lat"])]


def _csqrt(x):
    x = np.asarray(x)
    if np.iscomplexobj(x):
        return np.sqrt(x)
    return np.sqrt(np.maximum(x, 0.0))


def _prol(c, D):
    # defining relations: rho^2 = (mu - D^2)(1 - |nu|/D^2), z^2 = mu |nu| / D^2, sign z = sign nu
    D2 = D * D
    an = _abs(c["nu"])
    R = _csqrt((c["mu"] - D2) * (D2 - an) / D2)
    z = _csqrt(c["mu"] * an / D2) * _sgn(c["nu"])
    return [R * np.cos(c["phi"]), R * np.sin(c["phi"]), z]


REPS = {
    "CartesianPos1D": (1, [("x", LEN)], _cart),
    "RadialPos": (1, [("r", LEN)], _radial),
    "CartesianPos2D": (2, [("x", LEN), ("y", LEN)], _cart),
    "PolarPos": (2, [("r", LEN), ("phi", ANG)], _polar),
    "CartesianPos3D": (3, [("x", LEN), ("y", LEN), ("z", LEN)], _cart),
    "CylindricalPos": (3, [("rho", LEN), ("phi", ANG), ("z", LEN)], _cyl),
    "SphericalPos": (3, [("r", LEN), ("theta", ANG), ("phi", ANG)], _sph),
    "MathSphericalPos": (3, [("r", LEN), ("theta", ANG), ("phi", ANG)], _msph),
    "LonLatSphericalPos": (3, [("lon", ANG), ("lat", ANG), ("distance", LEN)], _llsph),
    "ProlateSpheroidalPos": (3, [("mu", AREA), ("nu", AREA), ("phi", ANG)], _prol),
}
POS1 = ["CartesianPos1D", "RadialPos"]
POS2 = ["CartesianPos2D", "PolarPos"]
POS3 = ["CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos", "LonLatSphericalPos", "ProlateSpheroidalPos"]
CARTESIAN = {1: "CartesianPos1D", 2: "CartesianPos2D", 3: "CartesianPos3D"}
# distance-typed component of each class (may hold Parallax / DistanceModulus)
DISTCOMP = {"RadialPos": "r", "PolarPos": "r", "SphericalPos": "r", "MathSphericalPos": "r", "LonLatSphericalPos": "distance"}
AZIMUTH = {"PolarPos": "phi", "CylindricalPos": "phi", "SphericalPos": "phi", "MathSphericalPos": "theta",
           "LonLatSphericalPos": "lon", "ProlateSpheroidalPos": "phi", "TwoSpherePos": "phi"}
POLARANG = {"SphericalPos": "theta", "MathSphericalPos": "phi", "LonLatSphericalPos": "lat", "TwoSpherePos": "theta"}


def velname(pos):
    return pos.replace("Pos", "Vel")


def accname(pos):
    return pos.replace("Pos", "Acc")


def posname(n):
    return n.replace("LonCosLat", "LonLat").replace("Vel", "Pos").replace("Acc", "Pos")


def to_cart(name, coords, Delta=None):
    """Coordinates (std units) -> Cartesian (..., d)."""
    parts = REPS[name][2](coords, Delta)
    return np.stack(np.broadcast_arrays(*parts), axis=-1)


def coords_of(name, X, Delta=None):
    """Cartesian point (..., d) in kpc -> reference coordinates of representation ``name``."""
    X = np.asarray(X, dtype=np.float64)
    if name.startswith("Cartesian"):
        return {k: X[..., i] for i, (k, _) in enumerate(REPS[name][1])}
    if name == "RadialPos":
        return {"r": np.abs(X[..., 0])}
    if name == "PolarPos":
        return {"r": np.hypot(X[..., 0], X[..., 1]), "phi": np.arctan2(X[..., 1], X[..., 0])}
    rho = np.hypot(X[..., 0], X[..., 1])
    az = np.arctan2(X[..., 1], X[..., 0])
    z = X[..., 2]
    if name == "CylindricalPos":
        return {"rho": rho, "phi": az, "z": z}
    r = np.hypot(rho, z)
    th = np.arctan2(rho, z)
    if name == "SphericalPos":
        return {"r": r, "theta": th, "phi": az}
    if name == "MathSphericalPos":
        return {"r": r, "theta": az, "phi": th}
    if name == "LonLatSphericalPos":
        return {"lon": az, "lat": np.arctan2(z, rho), "distance": r}
    if name == "ProlateSpheroidalPos":
        D = np.asarray(Delta, dtype=np.float64)
        # focal distances: foci at (0,0,+-D); mu = a^2, |nu| = b^2 with a=(d1+d2)/2, b=(d1-d2)/2, stable forms
        d1 = np.hypot(rho, z + D)
        d2 = np.hypot(rho, z - D)
        a = 0.5 * (d1 + d2)
        b = 2.0 * z * D / (d1 + d2)
        mu = np.maximum(a * a, D * D)
        nu = np.minimum(b * b, D * D) * np.sign(z)
        return {"mu": mu, "nu": nu, "phi": az}
    raise KeyError(name)


def jac(name, coords, Delta=None):
    """d Cartesian_i / d coord_j by complex step: (..., d, d)."""
    d, comps, _ = REPS[name]
    h = 1e-30
    cols = []
    base = {k: np.asarray(v, dtype=np.complex128) for k, v in coords.items()}
    for k, _kind in comps:
        cc = dict(base)
        cc[k] = cc[k] + 1j * h
        cols.append(np.imag(to_cart(name, cc, Delta)) / h)
    return np.stack(np.broadcast_arrays(*cols), axis=-1)


def cart_vel(name, coords, rates, Delta=None):
    """Cartesian velocity of coordinate rates (std units)."""
    J = jac(name, coords, Delta)
    q = np.stack(np.broadcast_arrays(*[rates[k] for k, _ in REPS[name][1]]), axis=-1)
    return np.einsum("...ij,...j->...i", J, q)


def coord_vel(name, coords, V, Delta=None):
    """Coordinate rates of a Cartesian velocity."""
    J = jac(name, coords, Delta)
    s = np.linalg.solve(J, np.asarray(V, dtype=np.float64)[..., None])[..., 0]
    return {k: s[..., i] for i, (k, _) in enumerate(REPS[name][1])}


def quad_term(name, coords, rates, Delta=None):
    """rates^T Hessian rates: the velocity-dependent part of the Cartesian acceleration.

    d/ds J(q + s qdot) qdot at s=0, complex-step inner, 4th-order central difference outer.
    """
    qs = {k: np.asarray(coords[k], dtype=np.float64) for k, _ in REPS[name][1]}
    rt = {k: np.asarray(rates[k], dtype=np.float64) for k, _ in REPS[name][1]}
    # choose the step relative to coordinate scales
    scl = [np.abs(rt[k]) / (np.abs(qs[k]) + (1.0 if kind == ANG else 0.0) + 1e-300) for k, kind in REPS[name][1]]
    if name == "ProlateSpheroidalPos":
        D2 = np.asarray(Delta) ** 2
        scl.append(np.abs(rt["mu"]) / np.maximum(qs["mu"] - D2, 1e-300))
        scl.append(np.abs(rt["nu"]) / np.maximum(D2 - np.abs(qs["nu"]), 1e-300))
    top = np.max(np.stack(np.broadcast_arrays(*scl)), axis=0)
    h = 1e-3 / np.maximum(top, 1e-12)

    def g(s):
        return cart_vel(name, {k: qs[k] + s * rt[k] for k in qs}, rt, Delta)

    hh = h[..., None]
    return (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * hh)


# ---------------------------------------------------------------- reading library objects
def delta_kpc(vec):
    return val(vec.Delta, KPC)


def read_coords(vec):
    """Component values of a position vector in std units (Parallax/DistanceModulus -> length)."""
    name = type(vec).__name__
    out = {}
    for k, kind in REPS[name][1]:
        q = getattr(vec, k)
        out[k] = dist_kpc(q) if kind == LEN else val(q, STD[kind])
    return out


def cart(vec):
    """The geometric point a position vector denotes: (..., d) in kpc."""
    name = type(vec).__name__
    if name == "CartesianPosND":
        return val(vec.q, KPC)
    if name == "CartesianGeneric3D":
        return np.stack(np.broadcast_arrays(*[val(getattr(vec, k), KPC) for k in "xyz"]), axis=-1)
    D = delta_kpc(vec) if name == "ProlateSpheroidalPos" else None
    return to_cart(name, read_coords(vec), D)


PREF = {1: "d_", 2: "d2_"}


def read_rates(vec, order=1, coslat=None):
    """Component values of a velocity/acceleration in std units, keyed by position component."""
    name = type(vec).__name__
    pn = posname(name)
    out = {}
    for k, kind in REPS[pn][1]:
        f = PREF[order] + k
        if name == "LonCosLatSphericalVel" and k == "lon":
            out[k] = val(vec.d_lon_coslat, std_unit(ANG, order)) / coslat
        else:
            out[k] = val(getattr(vec, f), std_unit(kind, order))
    return out


def vel_cart(vel, X, Delta=None):
    """Physical Cartesian velocity (kpc/Myr) denoted by ``vel`` at point ``X`` (kpc)."""
    name = type(vel).__name__
    if name == "CartesianVelND":
        return val(vel.d_q, std_unit(LEN, 1))
    pn = posname(name)
    c = coords_of(pn, X, Delta)
    rates = read_rates(vel, 1, np.cos(c["lat"]) if name == "LonCosLatSphericalVel" else None)
    return cart_vel(pn, c, rates, Delta)


def acc_cart(acc, vel_rates, X, Delta=None, jac_only=False):
    """Physical Cartesian acceleration denoted by ``acc`` at point X with coordinate rates ``vel_rates``
    (of the same family)."""
    name = type(acc).__name__
    pn = posname(name)
    c = coords_of(pn, X, Delta)
    a = cart_vel(pn, c, read_rates(acc, 2), Delta)
    return a if jac_only else a + quad_term(pn, c, vel_rates, Delta)


def tol_point(X, Delta=None, hops=1, eps=EPS, angle=True):
    """Allowed error of a point after a conversion through angles/acos (..., 1).

    acos / prolate conversions lose sqrt(eps) next to the axis; away from it the bound is a few hundred ulp.
    """
    X = np.asarray(X, dtype=np.float64)
    S = np.sqrt((X**2).sum(-1))
    if X.shape[-1] == 3 and angle:
        R = np.hypot(X[..., 0], X[..., 1])
        if Delta is not None:
            S = np.maximum(S, np.abs(np.asarray(Delta)))
        S1 = np.where(S > 0, S, 1.0)
        rel = 400 * eps + 60 * eps * S1 / np.maximum(R, np.sqrt(60 * eps) * S1)
        if Delta is not None:
            # the equatorial / focal-segment branch: z enters through sqrt(mu nu), rho through sqrt(mu - D^2)
            rel = rel + 60 * eps
    else:
        rel = 400 * eps
    return (hops * rel * S)[..., None] + 0 * X


# ---------------------------------------------------------------- rigid frame transform (astropy definition)
def rot(axis, ang):
    c, s = np.cos(ang), np.sin(ang)
    if axis == "x":
        return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
    if axis == "y":
        return np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]])
    return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])


ROLL0 = np.deg2rad(58.5986320306)


def galcen_matrix(lon, lat, d, roll, zsun):
    """ICRS (kpc) -> Galactocentric (kpc): X' = A X + b;  V' = A V + v_sun."""
    R1 = rot("y", -lat) @ rot("z", lon)
    R2 = rot("x", ROLL0 - roll)
    R = R2 @ R1
    t = np.array([-d, 0.0, 0.0])
    H = rot("y", -np.arcsin(zsun / d))
    A = H @ R
    b = H @ t
    return A, b

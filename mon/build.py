"""Reference table of every vector class (component names and kinds) and builders from plain numbers.

Independent of the library's own introspection: names and dimensions are written down here.
"""

import numpy as np

from . import gen as G, model as M

L, A, L2 = M.LEN, M.ANG, M.AREA
# class -> (order, [(field, kind)])
FIELDS = {}
for _n, (_d, _c, _f) in M.REPS.items():
    FIELDS[_n] = (0, [(k, kind) for k, kind in _c])
    FIELDS[M.velname(_n)] = (1, [("d_" + k, kind) for k, kind in _c])
    FIELDS[M.accname(_n)] = (2, [("d2_" + k, kind) for k, kind in _c])
FIELDS["TwoSpherePos"] = (0, [("theta", A), ("phi", A)])
FIELDS["TwoSphereVel"] = (1, [("d_theta", A), ("d_phi", A)])
FIELDS["TwoSphereAcc"] = (2, [("d2_theta", A), ("d2_phi", A)])
FIELDS["LonCosLatSphericalVel"] = (1, [("d_lon_coslat", A), ("d_lat", A), ("d_distance", L)])
ND = {"CartesianPosND": ("q", 0), "CartesianVelND": ("d_q", 1), "CartesianAccND": ("d2_q", 2)}
POS = [n for n, (o, _) in FIELDS.items() if o == 0]
VEL = [n for n, (o, _) in FIELDS.items() if o == 1]
ACC = [n for n, (o, _) in FIELDS.items() if o == 2]
DIM = {n: M.REPS[M.posname(n)][0] if M.posname(n) in M.REPS else 2 for n in FIELDS}


def sane(rng, name, shp, ints=False):
    """In-range std-unit values (kpc, rad, Myr; angles of positions in DEGREES multiples -> rad) per field."""
    order, comps = FIELDS[name]
    out = {}
    for k, kind in comps:
        if order:
            out[k] = rng.integers(-50, 51, shp).astype(float) if ints else rng.normal(size=shp)
        elif name == "ProlateSpheroidalPos" and kind == L2:
            out[k] = (2.0 + rng.integers(0, 8, shp) if ints else rng.uniform(1.2, 5, shp)) if k == "mu" else \
                (rng.integers(-3, 4, shp) / 4 if ints else rng.uniform(-0.95, 0.95, shp))
        elif kind == L:
            x = rng.integers(1, 40, shp).astype(float) if ints else rng.uniform(0.1, 9, shp)
            if name.startswith("Cartesian") or k == "z":
                x = x * np.where(rng.random(shp) < 0.5, -1.0, 1.0)
            out[k] = x
        else:
            if k == "lat":
                x = rng.integers(-80, 81, shp) if ints else rng.uniform(-80, 80, shp)
            elif k == M.POLARANG.get(name):
                x = rng.integers(5, 176, shp) if ints else rng.uniform(5, 175, shp)
            else:
                x = rng.integers(1, 359, shp) if ints else rng.uniform(1, 359, shp)
            out[k] = np.asarray(x, dtype=float)  # degrees!
    return {k: np.asarray(v, dtype=float) for k, v in out.items()}


BASE = {0: {L: "kpc", A: "deg", L2: "kpc2"}, 1: {L: "kpc/Myr", A: "deg/Myr", L2: "kpc2/Myr"},
        2: {L: "kpc/Myr2", A: "deg/Myr2", L2: "kpc2/Myr2"}}


def unit_of(name, k):
    o, comps = FIELDS[name]
    return BASE[o][dict(comps)[k]]


def build(name, vals, units=None, Delta=1.0, wrap=None, **over):
    """Vector of class ``name`` from values in BASE units (or ``units[k]`` for the raw values)."""
    v = G.vecs()
    kw = {}
    for k, _ in FIELDS[name][1]:
        un = (units or {}).get(k, unit_of(name, k))
        kw[k] = (wrap or {}).get(k, G.quantity)(vals[k], un)
    if name == "ProlateSpheroidalPos":
        kw["Delta"] = G.quantity(Delta, "kpc")
    kw.update(over)
    return getattr(v, name)(**kw)

"""Online monitors, attached to the running library from outside (no edits in /repo).

``watch_construction`` wraps the metaclass call through which every Module is built, so that each concrete
position vector handed out anywhere (also inside conversions and arithmetic) is range-checked by an oracle
that reads only component numbers and units.
"""

import contextlib
import numpy as np

from . import model as M


def is_concrete(q):
    import jax

    return not isinstance(getattr(q, "value", q), jax.core.Tracer)


def _vals(q, unit):
    return M.val(q, unit)


def range_errors(vec, slack=1e-12):
    """List of canonical-range violations of a concrete position vector (empty = fine); None if traced."""
    name = type(vec).__name__
    bad = []
    comps = []
    if name == "FourVector" or name in ("CartesianPosND", "CartesianGeneric3D", "PoincarePolarVector"):
        return []
    if name not in M.REPS and name != "TwoSpherePos":
        return []
    for k in vec.components:
        if not is_concrete(getattr(vec, k)):
            return None
    dk = M.DISTCOMP.get(name)
    if dk is not None:
        q = getattr(vec, dk)
        if type(q).__name__ != "DistanceModulus":
            v = np.asarray(q.value)
            if (v < 0).any():
                bad.append(f"{name}.{dk} negative: {v.min()}")
    if name == "CylindricalPos" and (np.asarray(vec.rho.value) < 0).any():
        bad.append(f"{name}.rho negative")
    pk = M.POLARANG.get(name)
    if pk is not None:
        a = _vals(getattr(vec, pk), "rad")
        lo, hi = (-np.pi / 2, np.pi / 2) if pk == "lat" else (0.0, np.pi)
        eps = 1e-6 if np.asarray(getattr(vec, pk).value).dtype == np.float32 else slack
        if (a < lo - eps).any() or (a > hi + eps).any():
            bad.append(f"{name}.{pk} out of range: {a.min()}..{a.max()} rad")
    if name == "ProlateSpheroidalPos":
        if not is_concrete(vec.Delta):
            return None
        D = M.delta_kpc(vec)
        D2 = D * D
        mu, nu = _vals(vec.mu, "kpc2"), _vals(vec.nu, "kpc2")
        eps = 1e-5 if np.asarray(vec.mu.value).dtype == np.float32 else 1e-10
        if (D <= 0).any():
            bad.append("Delta <= 0")
        if (mu < D2 * (1 - eps)).any():
            bad.append(f"mu < Delta^2 ({mu.min()} < {D2})")
        if (np.abs(nu) > D2 * (1 + eps)).any():
            bad.append(f"|nu| > Delta^2 ({np.abs(nu).max()} > {D2})")
    return bad


def azimuth_errors(vec, name, given):
    """``given``: the azimuth argument passed to the constructor (plain quantity) -> must be wrapped."""
    k = M.AZIMUTH[name]
    got = _vals(getattr(vec, k), "deg")
    want = _vals(given, "deg")
    f32 = np.asarray(getattr(vec, k).value).dtype == np.float32
    eps = 1e-4 if f32 else 1e-9
    bad = []
    if (got < -eps).any() or (got > 360 + eps).any():
        bad.append(f"{name}.{k} not wrapped: {got.min()}..{got.max()} deg")
    d = (got - want + 180.0) % 360.0 - 180.0
    d = d[np.isfinite(d)] if np.ndim(d) else (d if np.isfinite(d) else 0.0)
    if np.size(d) and np.abs(d).max() > eps * (1 + np.abs(want).max() / 360):
        bad.append(f"{name}.{k} changed by wrapping: {want} -> {got} deg")
    return bad


@contextlib.contextmanager
def watch_construction(ctx, mech="constructed"):
    """Range-check every concrete position vector constructed while active."""
    from coordinax.vecs import AbstractPos

    meta = type(AbstractPos)
    owner = next(c for c in meta.__mro__ if "__call__" in c.__dict__)
    orig = owner.__dict__["__call__"]

    def wrapped(cls, *a, **k):
        obj = orig(cls, *a, **k)
        if isinstance(cls, meta) and issubclass(cls, AbstractPos):
            e = range_errors(obj)
            if e is None:
                ctx.ev("constructed_traced")
            else:
                ctx.ev("constructed")
                ctx.ev(f"constructed:{cls.__name__}")
                ctx.evals += 1
                for m in e:
                    ctx.violation(f"{mech}:range", m, vector=str(type(obj).__name__))
                az = M.AZIMUTH.get(cls.__name__)
                if az is not None and az in k:
                    g = k[az]
                    if type(g).__name__ in ("Quantity", "UncheckedQuantity") or type(g).__name__.startswith("Quantity["):
                        if is_concrete(g):
                            ctx.ev("azimuth_wrapped")
                            for m in azimuth_errors(obj, cls.__name__, g):
                                ctx.violation(f"{mech}:azimuth", m)
        return obj

    owner.__call__ = wrapped
    try:
        yield
    finally:
        owner.__call__ = orig

"""Arithmetic of quantity-like objects compared with astropy quantities."""
import numpy as np


def plain(unit):
    """The unit with magnitudes replaced by an ordinary base unit (astropy refuses powers of mag)."""
    import astropy.units as au
    return au.Unit(str(unit).replace("mag", "K"))


def ref_of(x):
    import astropy.units as au
    if hasattr(x, "unit"):
        return np.asarray(x.value, float) * plain(x.unit)
    return np.asarray(x, float)


def compare(ctx, out, want, left, mech, keep, /, **w):
    """Value and unit equal astropy's; the type is plain unless the dimension is the operand's own."""
    import astropy.units as au
    if isinstance(want, np.ndarray) and not hasattr(want, "unit") and want.dtype == bool:
        ctx.check(np.array_equal(np.asarray(out), want), mech + ":bool", f"{out} vs {want}", **w)
        return
    n = type(out).__name__.split("[")[0]
    ctx.check(n in keep, mech + ":type", f"{n} not in {keep}", **w)
    if not hasattr(out, "unit"):
        return
    wu = want.unit if hasattr(want, "unit") else au.one
    ou = plain(out.unit)
    ctx.check(ou.physical_type == wu.physical_type or ou.decompose() == wu.decompose() or ou.is_equivalent(wu), mech + ":unit", f"{ou} vs {wu}", **w)
    got = (np.asarray(out.value) * ou).to_value(wu)
    wv = np.asarray(want.value if hasattr(want, "value") else want, float)
    ctx.check(np.shape(got) == np.shape(wv), mech + ":shape", f"{np.shape(got)} {np.shape(wv)}", **w)
    if np.shape(got) == np.shape(wv) and wv.size:
        s = np.abs(wv).max() if w.get("cancel") else np.abs(wv)
        ctx.close(got, wv, 1e-13 * (s + w.get("mag", 0.0)), mech + ":value", f"{w}")

"""Comparison helpers and reference geometry."""
import math

from vf.core import Violation


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, rel=1e-9, abs_=1e-9):
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)


def expect_close(a, b, what, rel=1e-9, abs_=1e-9):
    if not close(a, b, rel, abs_):   # also catches nan
        raise Violation("%s: got %r, expected %r" % (what, a, b))


def expect_raises(exc, func, what):
    try:
        r = func()
    except exc:
        return
    except Exception as e:
        raise Violation("%s: raised %s instead of %s" % (what, type(e).__name__, exc.__name__))
    raise Violation("%s: was accepted and returned %r" % (what, str(r)[:100]))


def pts(coordinates):
    return [(float(p[0]), float(p[1])) for p in coordinates]


def match_points(actual, expected, tol):
    """None if the two are equal as multisets of points (within tol), otherwise a description of the difference."""
    actual, expected = pts(actual), pts(expected)
    c = 4.0 * tol
    cells = {}
    for p in actual:
        if not (math.isfinite(p[0]) and math.isfinite(p[1])):
            return "a coordinate is not finite: %r" % (p,)
        cells.setdefault((math.floor(p[0] / c), math.floor(p[1] / c)), []).append(p)
    for q in expected:
        ix, iy = math.floor(q[0] / c), math.floor(q[1] / c)
        best = None
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1):
                for p in cells.get((ix + dx, iy + dy), ()):
                    d = max(abs(p[0] - q[0]), abs(p[1] - q[1]))
                    if d <= tol and (best is None or d < best[0]):
                        best = (d, (ix + dx, iy + dy), p)
        if best is None:
            return "borehole %r is missing (%d boreholes, expected %d)" % (q, len(actual), len(expected))
        cells[best[1]].remove(best[2])
    rest = [p for v in cells.values() for p in v]
    if rest:
        return "borehole %r does not belong there or is a duplicate (%d boreholes, expected %d)" % (
            rest[0], len(actual), len(expected))
    return None


def expect_field(actual, expected, what):
    ext = max([1.0] + [max(abs(p[0]), abs(p[1])) for p in pts(expected)])
    m = match_points(actual, expected, 1e-9 * ext)
    if m is not None:
        raise Violation("%s: %s" % (what, m))


# ---- reference layouts: sets of grid indices ------------------------------------------------------------------------
def ref_rect(nx, ny, bx, by, origin=(0.0, 0.0)):
    return [(origin[0] + i * bx, origin[1] + j * by) for i in range(nx) for j in range(ny)]


def ref_mask(nx, ny, bx, by, keep):
    return [(i * bx, j * by) for i in range(nx) for j in range(ny) if keep(i, j)]


def ref_open(nx, ny, bx, by):
    if nx > 2 and ny > 2:
        return ref_mask(nx, ny, bx, by, lambda i, j: i in (0, nx - 1) or j in (0, ny - 1))
    return ref_rect(nx, ny, bx, by)


def ref_u(nx, ny, bx, by):
    if nx > 2 and ny > 1:
        return ref_mask(nx, ny, bx, by, lambda i, j: j == 0 or i in (0, nx - 1))
    return ref_rect(nx, ny, bx, by)


def ref_l(nx, ny, bx, by):
    return ref_mask(nx, ny, bx, by, lambda i, j: i == 0 or j == 0)


def ref_lopu(nx, ny1, bx, by, ny2):
    n = max(ny1, ny2)
    return ref_mask(nx, n, bx, by, lambda i, j: j == 0 or (i == 0 and j < ny1) or (i == nx - 1 and j < ny2))


def ref_c(nx1, ny, bx, by, nx2):
    return ref_mask(nx1, ny, bx, by,
                    lambda i, j: j == 0 or i in (0, nx1 - 1) or (j == ny - 1 and 1 <= i <= nx2))


def ref_zoned(nx, ny, bx, by, nix, niy):
    f = ref_open(nx, ny, bx, by)
    bix = (nx - 1) * bx / (nix + 1)
    biy = (ny - 1) * by / (niy + 1)
    return f + [((i + 1) * bix, (j + 1) * biy) for i in range(nix) for j in range(niy)]


def ref_t(field):
    return [(y, x) for x, y in field]


def near_int(x, tol=1e-7):
    """x is so close to a whole number that rounding may decide a floor or ceiling either way."""
    return abs(x - round(x)) <= tol * max(1.0, abs(x))

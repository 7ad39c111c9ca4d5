"""Reference domains (sequences of fields), written from the documented stepping rules."""
import math
from fractions import Fraction

from vf.util import ref_c, ref_l, ref_lopu, ref_rect, ref_t, ref_zoned, near_int


def division(length, bmin, bmax):
    """Admissible borehole counts on a side: fewest, most, and whether rounding could decide otherwise."""
    lo, hi = length / bmax + 1, length / bmin + 1
    return int(math.ceil(lo)), int(math.floor(hi)), undecided(length, bmax) or undecided(length, bmin)


def undecided(length, b):
    """Rounding may decide a floor or ceiling of length / b: close to a whole number, but not exactly a whole number of spacings."""
    return near_int(length / b) and (Fraction(length) / Fraction(b)).denominator != 1


def exactly_whole(length, b):
    """length is a whole number of spacings in floating point as well (no ambiguity)."""
    q = length / b
    return q == round(q)


def near_square(lower, upper):
    out = []
    for i in range(lower, upper + 1):
        out.append((i, i))
        if i + 1 <= upper:
            out.append((i, i + 1))
    return out


def rectangular(lx, ly, bmin, bmax):
    """[(n_long, n_short, spacing)] of the uniform-spacing domain, with a flag for ambiguous rounding."""
    l1, l2 = max(lx, ly), min(lx, ly)
    nmin, nmax, amb = division(l1, bmin, bmax)
    out, old = [], 0
    b = l1 / (nmin - 1)
    for i in range(1, nmin):
        out.append((i, 1, b))
    for n in range(nmin, nmax + 1):
        b = l1 / (n - 1)
        rows = int(math.floor(l2 / b + 1))
        amb = amb or undecided(l2, b)
        if n == nmin:
            for j in range(1, rows):
                out.append((n, j, b))
        if rows != old:
            out.append((n, rows, b))
            old = rows
    return out, amb


def bi_rectangular(l1, l2, bmin, bmax1, rows):
    """[(n1, n2, b1, b2)] for a fixed number of rows on the short side."""
    nmin, nmax, amb = division(l1, bmin, bmax1)
    b2 = l2 / (rows - 1)
    b1 = l1 / (nmin - 1)
    out = [(i, 1, b1, b2) for i in range(1, nmin)]
    out += [(nmin, j, b1, b2) for j in range(1, rows)]
    out += [(n, rows, l1 / (n - 1), b2) for n in range(nmin, nmax + 1)]
    return out, amb


def bi_rectangle_nested(lx, ly, bmin, bmax_x, bmax_y):
    """Nested list of reference fields."""
    transpose = lx < ly
    l1, l2 = max(lx, ly), min(lx, ly)
    bm1, bm2 = (bmax_y, bmax_x) if transpose else (bmax_x, bmax_y)
    rmin, rmax, amb = division(l2, bmin, bm2)
    nested = []
    for rows in range(rmin, rmax + 1):
        inner, a = bi_rectangular(l1, l2, bmin, bm1, rows)
        amb = amb or a
        fields = [ref_rect(*t) for t in inner]
        nested.append([ref_t(f) for f in fields] if transpose else fields)
    return nested, amb


def zoned_steps(l1, l2, n1, n2):
    """All the acceptable successors: generator protocol, see zoned_next."""
    return l1 / (n1 - 1), l2 / (n2 - 1)


def zoned_next(l1, l2, n1, n2, i1, i2):
    """Interior counts that may follow (i1, i2): increase the direction that keeps the interior furthest from the
    perimeter; both are accepted when rounding decides."""
    b1, b2 = l1 / (n1 - 1), l2 / (n2 - 1)
    ratio = b1 / b2
    r1 = (l1 / (i1 + 1)) / (l2 / (i2 + 2))
    cand = []
    if r1 > ratio * (1 - 1e-9):
        cand.append((i1 + 1, i2))
    if r1 <= ratio * (1 + 1e-9):
        cand.append((i1, i2 + 1))
    return [c for c in cand if c[0] <= n1 - 2 and c[1] <= n2 - 2]


def zoned_field(l1, l2, n1, n2, i1, i2):
    return ref_zoned(n1, n2, l1 / (n1 - 1), l2 / (n2 - 1), i1, i2)


def perimeter_steps(n1, n2):
    """(line, L, U, open) fields that lead to an open rectangle, as functions of the spacings."""
    out = [("line", i) for i in range(1, n1 + 1)]
    out += [("L", i) for i in range(2, n2 + 1)]
    out += [("U", i) for i in range(2, n2 + 1)]
    out += [("C", i) for i in range(1, n1 - 1)]
    return out


def perimeter_field(step, n1, n2, b1, b2):
    kind, i = step
    if kind == "line":
        return ref_rect(i, 1, b1, b2)
    if kind == "L":
        return ref_l(n1, i, b1, b2)
    if kind == "U":
        return ref_lopu(n1, n2, b1, b2, i)
    return ref_c(n1, n2, b1, b2, i)


def zoned_perimeters(l1, l2, bmin, bm1, bm2):
    """Sequence of perimeter counts: the two sides are increased in turn, then the one that is left."""
    lo1, hi1, a1 = division(l1, bmin, bm1)
    lo2, hi2, a2 = division(l2, bmin, bm2)
    out, n1, n2, turn = [(lo1, lo2)], lo1, lo2, 0
    while (n1, n2) != (hi1, hi2):
        first = 0 if turn % 2 == 0 else 1
        if first == 0:
            if n1 < hi1:
                n1 += 1
            else:
                n2 += 1
        else:
            if n2 < hi2:
                n2 += 1
            else:
                n1 += 1
        turn += 1
        out.append((n1, n2))
    return out, a1 or a2

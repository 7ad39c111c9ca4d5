"""C04 Bi-zoned domains step from one borehole to full rectangles on the land."""
from hypothesis import strategies as st

from props.c02 import _design, on_land
from props.c03 import limits
from props.landgen import bmins, side
from vf import refdomains as rd
from vf.core import Discard, Sub, Violation
from vf.util import expect, expect_field, match_points, near_int, pts, ref_rect, ref_t

ID = "C04"
RULE = ("zoned domains of all perimeter counts 3..12 (and random land), and bi-zoned nested domains over random land sizes and spacing "
        "limits in both orientations, compared step by step with a reference that accepts both directions only on a tie; non-trivial = "
        "an interior of more than one borehole is reached")
ASSUMPTIONS = ["at least three boreholes on each side (fewer is rejected by the code with 'To many interior' errors)",
               "where rounding decides a floor or ceiling (within 1e-7 of a whole number), the case is discarded"]


def walk(fields, l1, l2, n1, n2, tr, what):
    """Checks a zoned sequence against the stepping rule."""
    state = [(1, 1)]
    for k, f in enumerate(fields):
        hit = []
        for i1, i2 in state:
            e = rd.zoned_field(l1, l2, n1, n2, i1, i2)
            e = ref_t(e) if tr else e
            m = match_points(f, e, 1e-9 * max(l1, l2, 1.0))
            if m is None:
                hit.append((i1, i2))
        if not hit:
            raise Violation("%s: field %d of the zoned domain %dx%d is not the rectangle with an interior of %s: %s" % (
                what, k, n1, n2, " or ".join("%dx%d" % s for s in state) or "(finished)", m if state else "too many fields"))
        last = hit
        state = [c for h in hit for c in rd.zoned_next(l1, l2, n1, n2, *h)]
    expect((n1 - 2, n2 - 2) in last, "%s: the zoned domain %dx%d ends with an interior of %s", what, n1, n2, last)


def zoned_len(n1, n2):
    return (n1 - 3) + (n2 - 3) + 1


def check_zoned(case, lab):
    from ghedt import domains
    l1, l2, n1, n2, tr = case["l1"], case["l2"], case["n1"], case["n2"], case["transpose"]
    got = domains.zoned_rectangle_domain(l1, l2, n1, n2, transpose=tr)
    what = "zoned domain %s" % case
    lab.nt(n1 > 3 or n2 > 3)
    expect(len(got) == zoned_len(n1, n2), "%s has %d fields, expected %d", what, len(got), zoned_len(n1, n2))
    walk(got, l1, l2, n1, n2, tr, what)
    if l1 > l2:
        # the sides may be given in either order
        other = domains.zoned_rectangle_domain(l2, l1, n2, n1, transpose=tr)
        expect(len(other) == len(got), "%s with the sides in the other order has %d fields", what, len(other))
        for f, e in zip(other, got):
            expect_field(f, pts(e), what + " with the sides in the other order")


def check_nested(case, lab):
    import ghedt
    from ghedt import domains
    lx, ly, bmin, bmx, bmy = limits(case)
    a, b = rd.division(lx, bmin, bmx), rd.division(ly, bmin, bmy)
    if not (a[1] >= a[0] >= 3 and b[1] >= b[0] >= 3):
        raise Discard()
    if any(near_int(l / s) and not rd.exactly_whole(l, s) for l, s in ((lx, bmx), (lx, bmin), (ly, bmy), (ly, bmin))):
        raise Discard()
    tr = lx < ly
    l1, l2, bm1, bm2 = (ly, lx, bmy, bmx) if tr else (lx, ly, bmx, bmy)
    what = "bi-zoned domain %s" % case
    got = domains.bi_rectangle_zoned_nested(lx, ly, bmin, bmx, bmy)
    per, _ = rd.zoned_perimeters(l1, l2, bmin, bm1, bm2)
    lab("transposed" if tr else "upright")
    lab.nt(len(per) > 1 or per[0] != (3, 3))
    expect(len(got) == len(per), "%s has %d inner domains, expected %d", what, len(got), len(per))
    for k, (inner, (n1, n2)) in enumerate(zip(got, per)):
        for f in inner:
            on_land(f, lx, ly, what)
        steps = rd.perimeter_steps(n1, n2) if k == 0 else []
        expect(len(inner) == len(steps) + zoned_len(n1, n2), "%s: inner domain %d has %d fields, expected %d", what, k,
               len(inner), len(steps) + zoned_len(n1, n2))
        for f, s in zip(inner, steps):
            e = rd.perimeter_field(s, n1, n2, l1 / (n1 - 1), l2 / (n2 - 1))
            expect_field(f, ref_t(e) if tr else e, "%s, %s %d" % (what, s[0], s[1]))
        for p, q in zip(inner[:len(steps)], inner[1:len(steps)]):
            expect(len(q) == len(p) + 1, "%s: a step adds %d boreholes", what, len(q) - len(p))
        for p, q in zip(inner, inner[1:]):
            expect(len(q) > len(p), "%s does not grow", what)
        walk(inner[len(steps):], l1, l2, n1, n2, tr, what)
        full = ref_rect(n1, n2, l1 / (n1 - 1), l2 / (n2 - 1))
        expect_field(inner[-1], ref_t(full) if tr else full, what + ": last field of an inner domain")
    gc = ghedt.media.GeometricConstraints(length=lx, width=ly, B_min=bmin, B_max_x=bmx, B_max_y=bmy)
    d = _design("bi-zoned", gc)
    expect([[len(f) for f in i] for i in d.coordinates_domain_nested] == [[len(f) for f in i] for i in got],
           "%s: the design searches other fields than the domain of its land", what)
    expect_field(d.coordinates_domain_nested[0][-1], pts(got[0][-1]), what + " of a design")


def all_small(tier):
    n = 9 if tier == "quick" else 16
    for n1 in range(3, n):
        for n2 in range(3, n):
            for l1, l2 in ((60.0, 60.0), (85.0, 36.5), (90.0, 30.0), (100.0, 99.0)):
                yield {"l1": l1, "l2": l2, "n1": n1, "n2": n2, "transpose": (n1 + n2) % 2 == 0}
    for n1, n2 in ((31, 33), (40, 25), (36, 36)) + (((60, 40),) if tier != "quick" else ()):
        yield {"l1": 200.0, "l2": 150.0, "n1": n1, "n2": n2, "transpose": n2 > n1}


@st.composite
def zoned(draw):
    l1 = draw(st.one_of(st.sampled_from([60.0, 85.0, 36.5]), st.floats(5.0, 300.0)))
    l2 = draw(st.one_of(st.just(l1), st.floats(0.1, 1.0).map(lambda r: l1 * r), st.sampled_from([0.5, 1 / 3, 0.25]).map(lambda r: l1 * r)))
    return {"l1": l1, "l2": l2, "n1": draw(st.integers(3, 14)), "n2": draw(st.integers(3, 14)), "transpose": draw(st.booleans())}


@st.composite
def lands(draw):
    bmin = draw(bmins())
    out = {"bmin": bmin}
    for a in ("x", "y"):
        length, bmax = draw(side(bmin, nmax=9, nmin=3))
        # at least three boreholes also at the maximum spacing
        k = draw(st.integers(2, 8))
        bmax = min(bmax, length / k if draw(st.booleans()) else length / 1.0001)
        out["l" + a], out["bmax_" + a] = length, max(bmax, bmin)
    return out


SUBCHECKS = [
    Sub("zoned", check_zoned, zoned, quick=1200, cases=all_small, shards=4),
    Sub("nested", check_nested, lands, quick=1600),
]

"""C03 Bi-rectangular domains grow over the land within both spacing limits."""
import math

from hypothesis import strategies as st

from props.c02 import _design, on_land
from props.landgen import bmins, nice, side
from vf import refdomains as rd
from vf.core import Discard, Sub
from vf.util import expect, expect_field, pts, ref_rect, ref_t

ID = "C03"
RULE = ("land sizes, minimum spacing and both maximum spacings that admit whole divisions (multiples, exact divisions, "
        "arbitrary decimals, both orientations); nested domains compared field by field with a reference plus growth, span, spacing and "
        "transposition checks; non-trivial = at least two inner domains or two complete rectangles")
ASSUMPTIONS = ["land and spacing limits for which no whole division of a side exists are out of the domain",
               "where rounding decides a floor or ceiling (within 1e-7 of a whole number), only the invariants are checked"]


def feasible(lx, ly, bmin, bx, by):
    a = rd.division(lx, bmin, bx)
    b = rd.division(ly, bmin, by)
    return a[1] >= a[0] >= 2 and b[1] >= b[0] >= 2


def limits(case):
    return case["lx"], case["ly"], case["bmin"], case["bmax_x"], case["bmax_y"]


def check_nested(case, lab):
    import ghedt
    from ghedt import domains
    lx, ly, bmin, bmx, bmy = limits(case)
    if not feasible(lx, ly, bmin, bmx, bmy):
        raise Discard()
    what = "bi-rectangular domain %s" % case
    got = domains.bi_rectangle_nested(lx, ly, bmin, bmx, bmy, **({"disp": True} if case["disp"] else {}))
    exp, amb = rd.bi_rectangle_nested(lx, ly, bmin, bmx, bmy)
    lab("transposed" if lx < ly else "upright")
    lab.nt(len(exp) > 1)
    tol = 1e-7
    expect(len(got) >= 1, "%s is empty", what)
    for inner in got:
        expect(len(inner) >= 1 and len(inner[0]) == 1, "%s: an inner domain does not start with one borehole", what)
        complete = 0
        for a, b in zip(inner, inner[1:]):
            expect(len(b) > len(a), "%s does not grow: %d then %d boreholes", what, len(a), len(b))
        for f in inner:
            on_land(f, lx, ly, what)
        xs, ys = sorted({x for x, _ in pts(inner[-1])}), sorted({y for _, y in pts(inner[-1])})
        expect(abs(xs[-1] - lx) <= tol * lx and abs(ys[-1] - ly) <= tol * ly and xs[0] == 0 and ys[0] == 0,
               "%s: the largest field spans %r x %r of the land", what, xs[-1], ys[-1])
        for v, bm in ((xs, bmx), (ys, bmy)):
            for a, b in zip(v, v[1:]):
                expect(bmin * (1 - tol) <= b - a <= bm * (1 + tol), "%s: spacing %r is outside of %r to %r", what, b - a, bmin, bm)
    if amb and ([len(i) for i in got] != [len(i) for i in exp]):
        lab("rounding decides")
        return
    expect(len(got) == len(exp), "%s has %d inner domains, expected %d", what, len(got), len(exp))
    for k, (gi, ei) in enumerate(zip(got, exp)):
        expect(len(gi) == len(ei), "%s: inner domain %d has %d fields, expected %d", what, k, len(gi), len(ei))
        for f, e in zip(gi, ei):
            if amb and len(f) != len(e):
                lab("rounding decides")
                continue
            expect_field(f, e, what)
    # swapping the sides transposes every field
    sw = domains.bi_rectangle_nested(ly, lx, bmin, bmy, bmx)
    if lx != ly:
        expect([len(i) for i in sw] == [len(i) for i in got], "%s: swapping the sides changes the number of fields", what)
        for gi, si in zip(got, sw):
            for f, s in zip(gi, si):
                expect_field(s, ref_t(pts(f)), what + " with swapped sides")
    gc = ghedt.media.GeometricConstraints(length=lx, width=ly, B_min=bmin, B_max_x=bmx, B_max_y=bmy)
    d = _design("bi-rectangle", gc)
    expect([[len(f) for f in i] for i in d.coordinates_domain_nested] == [[len(f) for f in i] for i in got],
           "%s: the design searches other fields than the domain of its land", what)
    expect_field(d.coordinates_domain_nested[-1][-1], pts(got[-1][-1]), what + " of a design")


def check_inner(case, lab):
    """A single inner domain requested directly."""
    from ghedt import domains
    lx, ly, bmin, bmx, bmy = limits(case)
    if not feasible(lx, ly, bmin, bmx, bmy):
        raise Discard()
    tr = lx < ly
    l1, l2, bm1, bm2 = (ly, lx, bmy, bmx) if tr else (lx, ly, bmx, bmy)
    # a maximum spacing that divides the side (up to rounding) gives exactly that division
    rows = int(math.ceil(round(l2 / bm2 + 1, 9)))
    exp, amb = rd.bi_rectangular(l1, l2, bmin, bm1, rows)
    amb = amb or (rd.near_int(l2 / bm2) and not rd.near_int(l2 / bm2, 1e-11))
    got = domains.bi_rectangular(lx, ly, bmin, bmx, bmy, transpose=tr)
    lab.nt(len(exp) > 3)
    what = "bi-rectangular inner domain %s" % case
    for a, b in zip(got, got[1:]):
        expect(len(b) > len(a), "%s does not grow: %d then %d boreholes", what, len(a), len(b))
    for f in got:
        on_land(f, lx, ly, what)
    if amb and len(got) != len(exp):
        lab("rounding decides")
        return
    expect(len(got) == len(exp), "%s has %d fields, expected %d", what, len(got), len(exp))
    for f, t in zip(got, exp):
        e = ref_rect(*t)
        if amb and len(e) != len(f):
            continue
        expect_field(f, ref_t(e) if tr else e, what)


@st.composite
def inner_lands(draw):
    bmin = draw(bmins())
    lx, bmx = draw(side(bmin, nmax=16))
    k = draw(st.integers(1, 60))
    ly = draw(nice(bmin * k, bmin * k + 0.99 * bmin))
    ly = max(ly, bmin * k)
    how = draw(st.integers(0, 5))
    bmy = ly / k if how > 1 else draw(nice(bmin, 3 * bmin))
    if how in (2, 3):         # the limit almost divides the side: just below it, one more row is needed
        bmy = max(bmin, ly / draw(st.integers(1, max(1, k - 1))) * (1.0 + draw(st.sampled_from([-1.0, 1.0])) * draw(st.sampled_from([1e-3, 1e-4, 1e-5, 1e-6]))))
    if draw(st.booleans()):
        lx, ly, bmx, bmy = ly, lx, bmy, bmx
    return {"lx": lx, "ly": ly, "bmin": bmin, "bmax_x": bmx, "bmax_y": bmy}


def many_rows(tier):
    """Sides divided by every whole number: the requested division must come out exactly."""
    for k in range(1, 50 if tier == "quick" else 200):
        for ly in (36.5, 80.1):
            b = 0.999 * ly / k
            yield {"lx": 1.01 * ly + b, "ly": ly, "bmin": b, "bmax_x": 1.03 * b, "bmax_y": ly / k}


def large_lands(tier):
    """Many row counts: more than twenty inner domains, up to large fields."""
    for lx, ly in ((90.0, 90.0), (90.0, 88.5), (88.5, 90.0)) + (((120.0, 61.0), (61.0, 120.0)) if tier != "quick" else ()):
        yield {"lx": lx, "ly": ly, "bmin": 2.97, "bmax_x": 15.5, "bmax_y": 17.3, "disp": False}


@st.composite
def lands(draw, nmin=2, nmax=10):
    bmin = draw(bmins())
    lx, bmx = draw(side(bmin, nmax=nmax, nmin=nmin))
    if draw(st.integers(0, 9)) == 0:
        ly, bmy = lx, bmx
    else:
        ly, bmy = draw(side(bmin, nmax=nmax, nmin=nmin))
    return {"lx": lx, "ly": ly, "bmin": bmin, "bmax_x": bmx, "bmax_y": bmy, "disp": draw(st.integers(0, 5)) == 0}


SUBCHECKS = [
    Sub("nested", check_nested, lands, quick=2400, cases=large_lands),
    Sub("inner", check_inner, inner_lands, quick=1600, cases=many_rows, shards=4),
]

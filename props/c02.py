"""C02 Near-square and rectangular search domains are complete, ordered, on land."""
import functools

from hypothesis import strategies as st

from props.landgen import bmins, nice, side
from vf import heat, refdomains as rd
from vf.core import Discard, Sub, Violation
from vf.util import expect, expect_field, expect_raises, near_int, pts, ref_rect, ref_t

ID = "C02"
RULE = ("near-square bounds and land sizes/spacing limits (also whole multiples of the spacing, both orientations); each "
        "domain compared field by field with a reference and checked for growth, spacing and land limits; non-trivial = "
        "at least 3 fields")
ASSUMPTIONS = ["land and spacing limits for which no whole division exists are out of the domain",
               "where a floor or ceiling is decided by rounding (within 1e-7 of a whole number but not exactly whole) either result is accepted"]


def on_land(field, lx, ly, what):
    e = 1e-9 * max(lx, ly, 1.0)
    for x, y in pts(field):
        expect(-e <= x <= lx + e and -e <= y <= ly + e, "%s: borehole (%r, %r) is off the land %r x %r", what, x, y, lx, ly)


def check_square(case, lab):
    from ghedt import domains
    lo, up, b = case["lower"], case["upper"], case["b"]
    if lo < 1 or up < 1 or up < lo:
        lab("rejected")
        lab.nt()
        expect_raises(ValueError, lambda: domains.square_and_near_square(lo, up, b), "near-square bounds %r to %r" % (lo, up))
        return
    got = domains.square_and_near_square(lo, up, b)
    exp = rd.near_square(lo, up)
    lab.nt(len(exp) >= 3)
    expect(len(got) == len(exp), "near-square domain %s has %d fields, expected %d", case, len(got), len(exp))
    for f, (n, m) in zip(got, exp):
        expect_field(f, ref_rect(n, m, b, b), "near-square %d x %d at %r" % (n, m, b))


def check_rect(case, lab):
    from ghedt import domains
    lx, ly, bmin, bmax = case["lx"], case["ly"], case["bmin"], case["bmax"]
    exp, amb = rd.rectangular(lx, ly, bmin, bmax)
    nmin, nmax, _ = rd.division(max(lx, ly), bmin, bmax)
    if nmax < nmin or nmin < 2:
        raise Discard()
    got = domains.rectangular(lx, ly, bmin, bmax, **({"disp": True} if case["disp"] else {}))
    transpose = lx < ly
    lab("transposed" if transpose else "upright")
    lab.nt(len(exp) >= 3)
    what = "rectangular domain %s" % case
    # invariants
    expect(len(got) > 0 and len(got[0]) == 1, "%s does not start with one borehole", what)
    for a, b in zip(got, got[1:]):
        expect(len(b) > len(a), "%s does not grow: %d then %d boreholes", what, len(a), len(b))
    for f in got:
        on_land(f, lx, ly, what)
    same = len(got) == len(exp)
    if not same and amb:
        lab("rounding decides")
        return
    expect(same, "%s has %d fields, expected %d", what, len(got), len(exp))
    for f, (n, m, b) in zip(got, exp):
        e = ref_rect(n, m, b, b)
        if transpose:
            e = ref_t(e)
        if amb and len(f) != len(e):
            lab("rounding decides")
            continue
        expect_field(f, e, "%s, field %d x %d" % (what, n, m))
    # the densest field spans the long side, within the spacing limits
    last = pts(got[-1])
    span = max(p[1] if transpose else p[0] for p in last)
    expect(abs(span - max(lx, ly)) <= 1e-9 * max(lx, ly), "%s: the last field ends at %r", what, span)


@functools.lru_cache(maxsize=1)
def _parts():
    import ghedt.peak_load_analysis_tool as plat
    cls, _, fl, b, pipe, grout, soil = heat.parts({})
    return b, cls, fl, pipe, grout, soil, plat.media.SimulationParameters(1, 240, 35.0, 5.0, 135.0, 60.0), [0.0] * 8760


def _design(routine, gc):
    """A Design of which only the domain is looked at."""
    import ghedt
    b, cls, fl, pipe, grout, soil, sp, q = _parts()
    return ghedt.design.Design(0.2, b, cls, fl, pipe, grout, soil, sp, gc, q, routine=routine)


def check_design(case, lab):
    """The domain a design request searches is the one of its land."""
    import ghedt
    if case["routine"] == "near-square":
        b, length = case["bmin"], case["lx"]
        d = _design("near-square", ghedt.media.GeometricConstraints(B=b, length=length))
        q = length / b
        n = int(round(q)) if near_int(q, 1e-9) else int(q)
        n += 1
        exp = rd.near_square(1, n)
        got = d.coordinates_domain
        lab("near-square design")
        if len(got) != len(exp) and near_int(q, 1e-6) and not near_int(q, 1e-10):
            lab("rounding decides")
            return
        expect(len(got) == len(exp), "near-square design over %r m at %r m searches %d fields, expected %d", length, b, len(got), len(exp))
        for f, (i, j) in zip(got, exp):
            expect_field(f, ref_rect(i, j, b, b), "near-square design field %dx%d" % (i, j))
        for f in got:
            on_land(f, length, length, "near-square design %s" % case)
        lab.nt(len(exp) >= 3)
        return
    gc = ghedt.media.GeometricConstraints(length=case["lx"], width=case["ly"], B_min=case["bmin"], B_max_x=case["bmax"])
    nmin, nmax, _ = rd.division(max(case["lx"], case["ly"]), case["bmin"], case["bmax"])
    if nmax < nmin or nmin < 2:
        raise Discard()
    exp, amb = rd.rectangular(case["lx"], case["ly"], case["bmin"], case["bmax"])
    d = _design("rectangle", gc)
    lab("rectangle design")
    lab.nt(len(exp) >= 3)
    if amb:
        return
    expect(len(d.coordinates_domain) == len(exp), "rectangle design %s searches %d fields, expected %d", case,
           len(d.coordinates_domain), len(exp))
    for f, (n, m, b) in zip(d.coordinates_domain, exp):
        e = ref_rect(n, m, b, b)
        expect_field(f, ref_t(e) if case["lx"] < case["ly"] else e, "rectangle design %s field %dx%d" % (case, n, m))


def squares():
    return st.fixed_dictionaries({"lower": st.integers(-1, 12), "upper": st.integers(-1, 24),
                                  "b": st.one_of(st.sampled_from([5.0, 6.1, 3]), st.floats(0.1, 30.0))})


@st.composite
def lands(draw):
    bmin = draw(bmins())
    length, bmax = draw(side(bmin, nmax=20))
    other = draw(st.one_of(nice(0.5, max(1.6, length)), st.just(length), st.integers(0, 12).map(lambda k: k * bmin + 0.5),
                           st.integers(1, 12).map(lambda k: float(k * bmin))))
    other = min(max(other, 0.1), length)
    lx, ly = (length, other) if draw(st.booleans()) else (other, length)
    return {"lx": lx, "ly": ly, "bmin": bmin, "bmax": bmax, "disp": draw(st.integers(0, 5)) == 0}


@st.composite
def designs(draw):
    d = draw(lands())
    d["routine"] = draw(st.sampled_from(["near-square", "rectangle"]))
    if d["routine"] == "near-square":
        k = draw(st.integers(0, 20))
        d["lx"] = draw(st.one_of(st.just(k * d["bmin"]), nice(0.5, 25 * d["bmin"])))
    return d


def small_squares(tier):
    for lo in range(-1, 8):
        for up in range(-1, 10):
            yield {"lower": lo, "upper": up, "b": 5.0}
    for lo, up in ((30, 36), (44, 46), (28, 33), (1, 40)) + (((60, 70), (100, 102)) if tier != "quick" else ()):
        yield {"lower": lo, "upper": up, "b": 6.1}


SUBCHECKS = [
    Sub("near-square", check_square, squares, quick=400, cases=small_squares, shards=2),
    Sub("rectangular", check_rect, lands, quick=5000),
    Sub("design", check_design, designs, quick=2000, shards=4),
]

"""C01 Field layouts contain exactly the boreholes of the named shape."""
from hypothesis import strategies as st

from vf.core import Sub, Violation
from vf.util import (expect, expect_field, expect_raises, pts, ref_c, ref_l, ref_lopu, ref_open, ref_rect, ref_t,
                     ref_u, ref_zoned)

ID = "C01"
RULE = ("random (and all small) borehole counts, spacings and origins for every layout generator, compared as multisets "
        "of points with a reference defined on the index grid; non-trivial = more than 2 boreholes on some side")
ASSUMPTIONS = ["C and lopsided U shapes need at least two boreholes on the sides that hold their columns",
               "the order of the boreholes is not part of the property"]


def check(case, lab):
    from ghedt import coordinates as co
    k, a, b, bx, by = case["shape"], case["nx"], case["ny"], case["bx"], case["by"]
    n2 = case.get("n2", 0)
    lab(k)
    lab.nt(max(a, b) > 2)
    if k == "rectangle":
        o = case.get("origin")
        got = co.rectangle(a, b, bx, by) if o is None else co.rectangle(a, b, bx, by, origin=tuple(o))
        exp = ref_rect(a, b, bx, by, o or (0.0, 0.0))
    elif k == "open":
        got, exp = co.open_rectangle(a, b, bx, by), ref_open(a, b, bx, by)
    elif k == "U":
        got, exp = co.U_shape(a, b, bx, by), ref_u(a, b, bx, by)
    elif k == "L":
        got, exp = co.L_shape(a, b, bx, by), ref_l(a, b, bx, by)
    elif k == "lopU":
        got, exp = co.lop_U(a, b, bx, by, n2), ref_lopu(a, b, bx, by, n2)
    elif k == "C":
        got, exp = co.C_shape(a, b, bx, by, n2), ref_c(a, b, bx, by, n2)
    elif k == "zoned":
        ix, iy = case["nix"], case["niy"]
        if ix > a - 2 or iy > b - 2:
            lab("zoned rejected")
            expect_raises(ValueError, lambda: co.zoned_rectangle(a, b, bx, by, ix, iy),
                          "zoned rectangle %dx%d with interior %dx%d" % (a, b, ix, iy))
            return
        got, exp = co.zoned_rectangle(a, b, bx, by, ix, iy), ref_zoned(a, b, bx, by, ix, iy)
    else:
        raise ValueError(k)
    expect_field(got, exp, "%s %s" % (k, case))
    t = co.transpose_coordinates(got)
    expect(pts(t) == ref_t(pts(got)), "transposing %s does not swap x and y", case)
    tt = co.transpose_coordinates(t)
    expect(pts(tt) == pts(got), "transposing %s twice does not restore it", case)


def spacing():
    return st.one_of(st.sampled_from([1.0, 5.0, 5, 6.1, 10]), st.floats(0.01, 200.0))


def count(lo=1):
    return st.one_of(st.integers(lo, max(lo, 6)), st.integers(lo, 40))


@st.composite
def layouts(draw):
    k = draw(st.sampled_from(["rectangle", "open", "U", "L", "lopU", "C", "zoned", "zoned"]))
    d = {"shape": k, "nx": draw(count(2 if k in ("lopU", "C") else 1)),
         "ny": draw(count(2 if k == "C" else 1)), "bx": draw(spacing()), "by": draw(spacing())}
    if k == "rectangle" and draw(st.booleans()):
        d["origin"] = [draw(st.floats(-100, 100)), draw(st.floats(-100, 100))]
    if k == "lopU":
        d["n2"] = draw(count())
    if k == "C":
        d["n2"] = draw(st.integers(0, d["nx"] - 2))
    if k == "zoned":
        d["nix"] = draw(st.integers(0, max(d["nx"] - 1, 1)))
        d["niy"] = draw(st.integers(0, max(d["ny"] - 1, 1)))
    return d


def small(tier):
    n = 7 if tier == "quick" else 12
    for a in range(1, n):
        for b in range(1, n):
            base = {"nx": a, "ny": b, "bx": 5.0, "by": 3.5}
            for k in ("rectangle", "open", "U", "L"):
                yield dict(base, shape=k)
            if a >= 2:
                for c in range(1, n):
                    yield dict(base, shape="lopU", n2=c)
                if b >= 2:
                    for c in range(0, a - 1):
                        yield dict(base, shape="C", n2=c)
            for ix in range(0, a):
                for iy in range(0, b):
                    yield dict(base, shape="zoned", nix=ix, niy=iy)


def check_transpose(case, lab):
    from ghedt import coordinates as co
    p = [tuple(q) for q in case["points"]]
    keep = list(p)
    lab.nt(len(p) > 1)
    t = co.transpose_coordinates(p)
    expect(pts(t) == ref_t(pts(keep)), "transposition of %s gives %s", keep, t)
    expect(p == keep, "transposition changes its input")


SUBCHECKS = [
    Sub("layouts", check, layouts, quick=6000, cases=small),
    Sub("transpose", check_transpose,
        lambda: st.fixed_dictionaries({"points": st.lists(
            st.tuples(st.floats(-1e3, 1e3), st.floats(-1e3, 1e3)).map(list), max_size=12)}), quick=600, shards=2),
]

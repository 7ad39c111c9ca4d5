"""C05 Land constraints keep boreholes on the property and off buildings."""
import math

from hypothesis import strategies as st

from props.landgen import _round, bmins, nice
from vf import refdomains as rd
from vf.core import Discard, Sub, Violation
from vf.polygon import classify
from vf.util import expect, expect_field, near_int, pts

ID = "C05"
RULE = ("polygons (rectangles, L shapes, triangles, star-shaped, either vertex order, open or closed) with points inside, outside, on "
        "edges and vertices, and whole constrained domains with and without a building; compared with an independent even-odd "
        "classification; non-trivial = the polygon removes some but not all of the points")
ASSUMPTIONS = ["polygons are simple, with coordinates between -30 and 1500 m",
               "points closer to an edge than 1 mm (but not on an axis-parallel edge or a vertex) may fall on either side: the code "
               "works on a 32-bit grid", "coordinates are kept up to 1e-9 relative"]
BAND = 1e-3


def wanted(kind, remove_inside, keep_contour):
    """True keep, False drop, None either."""
    if kind == "?":
        return None
    if kind == "on":
        return bool(keep_contour)
    return (kind == "out") if remove_inside else (kind == "in")


def match_kept(points, got, verdicts, what):
    """got must be the subsequence of points with verdict True, plus any with verdict None."""
    k = 0
    got = pts(got)
    for p, v in zip(points, verdicts):
        here = k < len(got) and abs(got[k][0] - p[0]) <= 1e-9 * max(1, abs(p[0])) and abs(got[k][1] - p[1]) <= 1e-9 * max(1, abs(p[1]))
        if v is True:
            expect(here, "%s: %r should be kept (got %r)", what, p, got[k] if k < len(got) else None)
            k += 1
        elif v is None and here:
            k += 1
        elif v is False and here:
            # the same point could be repeated later in the list as a kept one: not possible, verdicts are per position
            raise Violation("%s: %r should be removed" % (what, p))
    expect(k == len(got), "%s: unexpected borehole %r", what, got[k] if k < len(got) else None)


def check_filter(case, lab):
    from ghedt import feature_recognition as fr
    points = [tuple(p) for p in case["points"]]
    if case.get("grid"):
        nx, ny, dx, dy = case["grid"]
        points += [(i * dx, j * dy) for i in range(nx) for j in range(ny) if (i * dx, j * dy) not in points]
        lab("more than 100 points" if len(points) > 100 else "grid of points")
    poly = case["poly"]
    ri, kc = case["remove_inside"], case["keep_contour"]
    if poly is None or len(poly) == 0:
        got = fr.remove_cutout(list(points), boundary=poly, remove_inside=ri, keep_contour=kc)
        lab("no polygon")
        expect(pts(got) == pts(points), "without a polygon boreholes %s become %s", points, got)
        return
    kinds = [classify(p, poly, BAND) for p in points]
    for k in set(kinds):
        lab("points " + k)
    verdicts = [wanted(k, ri, kc) for k in kinds]
    lab.nt(True in verdicts and False in verdicts)
    poly_in = [tuple(v) for v in poly] if case.get("tuples") else [list(v) for v in poly]
    got = fr.remove_cutout(list(points), boundary=poly_in, remove_inside=ri, keep_contour=kc)
    match_kept(pts(points), got, verdicts, "boreholes filtered by %s (remove_inside=%s, keep_contour=%s)" % (poly, ri, kc))
    # nothing is lost or doubled between the two complementary requests
    if "?" not in kinds:
        other = fr.remove_cutout(list(points), boundary=poly_in, remove_inside=not ri, keep_contour=not kc)
        expect(len(got) + len(other) == len(points), "the two sides of %s have %d + %d of %d boreholes", poly, len(got), len(other), len(points))


def check_domain(case, lab):
    from ghedt import domains
    land, building = case["land"], case["building"]
    bmin, bmx, bmy = case["bmin"], case["bmax_x"], case["bmax_y"]
    lx, ly = max(p[0] for p in land), max(p[1] for p in land)
    a, b = rd.division(lx, bmin, bmx), rd.division(ly, bmin, bmy)
    if not (a[1] >= a[0] >= 2 and b[1] >= b[0] >= 2):
        raise Discard()
    ref, amb = rd.bi_rectangle_nested(lx, ly, bmin, bmx, bmy)
    if amb or sum(len(f) for i in ref for f in i) > 60000:
        raise Discard()
    land_in = [list(v) for v in land]
    b_in = None if building is None else [list(v) for v in building]
    if building is None and not case.get("pass_none"):
        got = domains.polygonal_land_constraint(land_in, bmin, bmx, bmy)
    else:
        got = domains.polygonal_land_constraint(land_in, bmin, bmx, bmy, building_description=b_in)
    lab("building" if building else "no building")
    what = "domain on land %s, building %s, spacing %s" % (land, building, (bmin, bmx, bmy))
    cache = {}

    def verdict(p):
        if p not in cache:
            v = wanted(classify(p, land, BAND), False, True)
            if v is not False and building:
                w = wanted(classify(p, building, BAND), True, False)
                v = False if w is False else (None if (w is None or v is None) else True)
            cache[p] = v
        return cache[p]

    if max(len(f) for i in ref for f in i) > 100:
        lab("more than 100 boreholes")
    expect(len(got) == len(ref), "%s has %d inner domains, expected %d", what, len(got), len(ref))
    removed = ambiguous = False
    for k, (gi, ri) in enumerate(zip(got, ref)):
        exp = []
        for f in ri:
            v = [verdict(p) for p in f]
            removed = removed or (False in v)
            if None in v:
                ambiguous = True
            keep = [p for p, w in zip(f, v) if w]
            if keep:
                exp.append(keep)
        sizes = [len(f) for f in gi]
        expect(all(s > 0 for s in sizes), "%s: an inner domain contains a field without boreholes", what)
        expect(all(x <= y for x, y in zip(sizes, sizes[1:])), "%s: inner domain %d is not ordered by size: %s", what, k, sizes)
        tol = 1e-9 * max(1.0, lx, ly)
        for f in gi:
            for p in pts(f):
                # the reference point this is (rounded to the grid of the inner domain)
                if classify(p, land, BAND) == "out" or (building and classify(p, building, BAND) == "in"):
                    raise Violation("%s: borehole %r is not on the property or is in the building" % (what, p))
        if ambiguous:
            continue
        exp.sort(key=len)
        expect(len(gi) == len(exp), "%s: inner domain %d has %d fields, expected %d", what, k, len(gi), len(exp))
        for f, e in zip(gi, exp):
            expect_field(f, e, "%s, inner domain %d" % (what, k))
    lab("ambiguous points" if ambiguous else "exact")
    if lx < ly:
        lab("transposed")
    lab.nt(removed)


def check_reorder(case, lab):
    from ghedt import domains
    sizes = case["sizes"]
    dom = [[(float(i if case["up"] else -i), float(j)) for j in range(n)] for i, n in enumerate(sizes)]
    exp = sorted(range(len(sizes)), key=lambda i: sizes[i])
    lab.nt(len(set(sizes)) < len(sizes) and sizes != sorted(sizes))
    keep = [list(f) for f in dom]
    got = domains.reorder_domain(dom)
    expect([pts(f) for f in got] == [pts(dom[i]) for i in exp], "ordering fields of sizes %s gives sizes %s", sizes, [len(f) for f in got])
    expect(dom == keep, "ordering a domain changes the domain it was given")


def check_rectangle(case, lab):
    from ghedt import feature_recognition as fr
    poly = case["poly"]
    lab.nt(len(poly) > 3)
    r = pts(fr.determine_largest_rectangle([list(p) for p in poly]))
    mx, my = max(p[0] for p in poly), max(p[1] for p in poly)
    corners = {(0.0, 0.0), (float(mx), 0.0), (float(mx), float(my)), (0.0, float(my))}
    expect(set(r) == corners, "the rectangle around %s is %s", poly, r)


# ---- generators -----------------------------------------------------------------------------------------------------
@st.composite
def polygon(draw, size=None, lo=0.0):
    """Simple polygon with non-negative coordinates."""
    w = size[0] if size else draw(nice(8.0, 120.0))
    h = size[1] if size else draw(nice(8.0, 120.0))
    kind = draw(st.sampled_from(["rect", "rect", "ell", "tri", "star", "trapezoid", "notch"]))
    if kind == "rect":
        p = [[0.0, 0.0], [w, 0.0], [w, h], [0.0, h]]
    elif kind == "ell":
        a, b = draw(nice(0.2 * w, 0.8 * w)), draw(nice(0.2 * h, 0.8 * h))
        p = [[0.0, 0.0], [w, 0.0], [w, b], [a, b], [a, h], [0.0, h]]
    elif kind == "notch":
        a, c = draw(nice(0.1 * w, 0.4 * w)), draw(nice(0.5 * w, 0.9 * w))
        b = draw(nice(0.2 * h, 0.8 * h))
        p = [[0.0, 0.0], [w, 0.0], [w, h], [c, h], [c, b], [a, b], [a, h], [0.0, h]]
    elif kind == "tri":
        p = [[0.0, 0.0], [w, draw(nice(0.0, 0.5 * h))], [draw(nice(0.0, w)), h]]
    elif kind == "trapezoid":
        a = draw(nice(0.0, 0.4 * w))
        p = [[a, 0.0], [w, 0.0], [draw(nice(0.6 * w, w)), h], [0.0, h]]
    else:
        n = draw(st.integers(4, 9))
        rs = [draw(st.floats(0.35, 1.0)) for _ in range(n)]
        p = []
        for i, r in enumerate(rs):
            t = 2 * math.pi * i / n
            p.append([_round(0.5 * w * (1 + r * math.cos(t)), 2, 0.0, w), _round(0.5 * h * (1 + r * math.sin(t)), 2, 0.0, h)])
    if lo:
        p = [[x + lo, y + lo] for x, y in p]
    if draw(st.booleans()):
        p.reverse()
    k = draw(st.integers(0, len(p) - 1))
    p = p[k:] + p[:k]
    if draw(st.integers(0, 3)) == 0:
        p = p + [list(p[0])]
    return p


@st.composite
def filters(draw):
    if draw(st.integers(0, 19)) == 0:
        poly = draw(st.sampled_from([None, []]))
        base = [[0.0, 0.0], [50.0, 50.0]]
    else:
        off = draw(st.sampled_from([0.0, 0.0, 5.0, 20.25, -5.0]))
        big = draw(st.integers(0, 5)) == 0
        poly = base = draw(polygon(lo=off, size=[draw(nice(100.0, 1500.0)) for _ in range(2)] if big else None))
    mx, my = max(p[0] for p in base), max(p[1] for p in base)
    points = []
    for _ in range(draw(st.integers(1, 14))):
        how = draw(st.integers(0, 5))
        if how == 0:
            p = draw(st.sampled_from(base))
        elif how == 1:      # on an edge
            i = draw(st.integers(0, len(base) - 1))
            a, b = base[i], base[(i + 1) % len(base)]
            t = draw(st.sampled_from([0.5, 0.25, 0.1, 1 / 3]))
            p = [a[0] + t * (b[0] - a[0]) if a[0] != b[0] else a[0], a[1] + t * (b[1] - a[1]) if a[1] != b[1] else a[1]]
        elif how == 2:      # aligned with a vertex
            p = [draw(st.sampled_from(base))[0], draw(nice(0.0, 1.2 * my))]
        elif how == 3:
            p = [draw(nice(0.0, 1.2 * mx)), draw(st.sampled_from(base))[1]]
        else:
            p = [draw(nice(0.0, 1.2 * mx)), draw(nice(0.0, 1.2 * my))]
        if not any(abs(p[0] - q[0]) + abs(p[1] - q[1]) < 1e-6 for q in points):
            points.append([x if abs(x) > 1e-9 else 0.0 for x in p])
    out = {"points": points, "poly": poly, "remove_inside": draw(st.booleans()), "keep_contour": draw(st.booleans()),
           "tuples": draw(st.booleans())}
    if draw(st.integers(0, 9)) == 0:
        nx, ny = draw(st.integers(2, 30)), draw(st.integers(2, 30))
        # a grid aligned with the extent, so that points lie on straight outlines
        out["grid"] = [nx, ny, mx / draw(st.sampled_from([nx - 1, nx, 4])), my / draw(st.sampled_from([ny - 1, ny, 4]))]
    return out


@st.composite
def domains_(draw):
    bmin = draw(st.one_of(st.sampled_from([4.45, 5.0, 6.1]), nice(3.0, 10.0)))
    w, h = [draw(nice(1.3 * bmin, 9.0 * bmin)) for _ in range(2)]
    land = draw(polygon(size=(w, h)))
    if draw(st.integers(0, 4)) == 0:      # surveyed from a point on the land: part of it has negative coordinates
        dx, dy = [draw(st.sampled_from([0.0, 0.1, 0.25])) * (s - 1.3 * bmin) for s in (w, h)]
        moved = [[x - dx, y - dy] for x, y in land]
        if max(p[0] for p in moved) > 1.2 * bmin and max(p[1] for p in moved) > 1.2 * bmin:
            land = moved
    lx, ly = max(p[0] for p in land), max(p[1] for p in land)
    out = {"land": land, "bmin": bmin, "building": None, "pass_none": draw(st.booleans())}
    for a, s in (("x", lx), ("y", ly)):
        n = max(1, int(s / bmin))
        k = draw(st.integers(max(1, n - 3), n))
        out["bmax_" + a] = draw(st.one_of(st.floats(1.001, 1.4), st.just(1.2))) * max(s / k, bmin)
    if draw(st.integers(0, 3)):
        x0, y0 = draw(nice(0.0, 0.7 * lx)), draw(nice(0.0, 0.7 * ly))
        if draw(st.integers(0, 3)) == 0:
            x0 = y0 = 0.0
        bw, bh = draw(nice(0.1 * lx, lx - x0)), draw(nice(0.1 * ly, ly - y0))
        b = draw(st.sampled_from([
            [[x0, y0], [x0 + bw, y0], [x0 + bw, y0 + bh], [x0, y0 + bh]],
            [[x0, y0], [x0 + bw, y0], [x0 + bw, y0 + bh / 2], [x0 + bw / 2, y0 + bh / 2], [x0 + bw / 2, y0 + bh], [x0, y0 + bh]],
            [[x0, y0], [x0 + bw, y0], [x0 + bw / 2, y0 + bh]]]))
        out["building"] = b
    return out


@st.composite
def aligned(draw):
    """Rectangular land and building whose outlines lie on the boreholes, up to large fields."""
    b = draw(st.sampled_from([4.0, 5.0, 6.5, 8.0]))
    n = draw(st.sampled_from([9, 16, 25]))
    kx, ky = draw(st.integers(2, n)), draw(st.integers(2, n))
    cuts = [sorted([draw(st.integers(0, k)), draw(st.integers(0, k))]) for k in (kx, ky)]
    cuts = [[c[0], max(c[1], c[0] + 1)] for c in cuts]
    (x0, x1), (y0, y1) = [[b * v for v in c] for c in cuts]
    land = [[0.0, 0.0], [b * kx, 0.0], [b * kx, b * ky], [0.0, b * ky]]
    if draw(st.booleans()) and kx > 2 and ky > 2:
        cx, cy = draw(st.integers(1, kx - 1)), draw(st.integers(1, ky - 1))
        land = [[0.0, 0.0], [b * kx, 0.0], [b * kx, b * cy], [b * cx, b * cy], [b * cx, b * ky], [0.0, b * ky]]
    # limits just around b, so that the counts are unambiguous and the spacing is exactly b on the largest fields
    mx, my = [b * draw(st.sampled_from([1.015, 1.03, 1.11])) for _ in range(2)]
    return {"land": land, "bmin": 0.983 * b, "bmax_x": mx, "bmax_y": my,
            "building": [[x0, y0], [x1, y0], [x1, y1], [x0, y1]] if draw(st.integers(0, 4)) else None, "pass_none": draw(st.booleans())}


def example(tier):
    for land in ([[0, 0], [85, 0], [85, 80], [0, 80]], [[0, 0], [36.5, 0], [36.5, 85], [0, 85]]):
        for b in (None, [[15, 36.5], [65, 36.5], [65, 69.8], [15, 69.8]], [[0, 0], [85, 0], [85, 80], [0, 80]]):
            yield {"land": land, "building": b, "bmin": 8.0, "bmax_x": 10.1, "bmax_y": 12.3, "pass_none": True}


SUBCHECKS = [
    Sub("filter", check_filter, filters, quick=6000),
    Sub("domain", check_domain, domains_, quick=1200, cases=example),
    Sub("aligned", check_domain, aligned, quick=500),
    Sub("order", check_reorder, lambda: st.fixed_dictionaries({"up": st.booleans(), "sizes": st.one_of(st.lists(st.integers(1, 9), max_size=12), st.lists(st.integers(1, 30), min_size=20, max_size=70))}), quick=600, shards=1),
    Sub("outline", check_rectangle, lambda: st.fixed_dictionaries({"poly": st.one_of(polygon(), polygon(lo=-5.0))}), quick=300, shards=1),
]

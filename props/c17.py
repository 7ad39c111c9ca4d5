"""C17 Nested searches select a sufficient field from the right inner domain."""
import copy

from hypothesis import strategies as st

from props.c16 import consistent, final, inputs, make_fields, model, snapshot
from vf import fake
from vf.core import Discard, Sub
from vf.util import expect, expect_close

ID = "C17"
RULE = ("nested domains of 1 to 12 inner domains of 1 to 15 growing fields (of different inner domains also with the same number of boreholes and the same outermost ones) with required heights that decrease along every inner domain and over the largest fields (or, for the weaker "
        "statements, arbitrary ones), inner domains whose selections need equal or nearly equal total drilling, height limits, flow per borehole or system, either temperature limit, searched by the real code on a stand-in simulation; "
        "non-trivial = a selection outside of the first inner domain or, for the zoned search, a comparison of at least two inner domains")
ASSUMPTIONS = ["in the stand-in, the excess of a field at height H is a (required height / H - 1), and sizing gives the required height within the limits", "no excess is exactly zero",
               "for an excess that is not monotone, only membership and sufficiency are required, and rejecting is accepted"]


def nested(case):
    """Fields of the inner domains (one field of the first is shared by none) and their required heights."""
    doms, hs = [], []
    lo, hi = case["limits"]
    for i, (ns, req) in enumerate(case["inner"]):
        r = [req[j % len(req)] for j in range(len(ns))]
        if case["monotone"]:
            r = sorted(set(r), reverse=True)
            ns = ns[:len(r)]
        doms.append(make_fields([case["B"], case["width"], ns, 0.01 * i], (lambda k: 0.01 * i) if case.get("alike") else None))
        hs.append(list(r) if case.get("metres") else [0.3 * lo + x * (1.6 * hi - 0.3 * lo) for x in r])
    return doms, hs


def run(case, cls_name, lab):
    import ghedt as dt
    doms, hs = nested(case)
    lo, hi = case["limits"]
    flat = [x for h in hs for x in h]
    if min(min(abs(x - lo), abs(x - hi)) for x in flat) < 1e-6 * hi:
        raise Discard()
    outer = [hs[0][0]] + [h[-1] for h in hs]
    mono = case["monotone"] and all(a > b for a, b in zip(outer[1:], outer[2:]))
    required = {}
    for d, h in zip(doms, hs):
        for f, x in zip(d, h):
            required[fake.key(f)] = x
    w = fake.World(required, case["amplitude"], case["side"])
    cls, fl, b, pipe, grout, soil, sp = inputs(case)
    given = copy.deepcopy(doms)
    before = snapshot(b, pipe, grout, soil, sp, doms)
    what = "nested search between %r and %r m of fields needing %s m" % (lo, hi, [[round(x, 2) for x in h] for h in hs])
    what = what[:600]
    res, err = None, ""
    load = [0.0] * 8760
    with fake.world(w):
        try:
            kw = {"disp": True} if case["disp"] else {}
            res = getattr(dt.search_routines, cls_name)(given, case["V"], b, cls, fl, pipe, grout, soil, sp, load, method=case["method"], flow=case["flow"], **kw)
        except ValueError as e:
            err = str(e)
    expect(snapshot(b, pipe, grout, soil, sp, given) == before, "%s: the inputs changed", what)
    lab(case["flow"], "monotone" if mono else "arbitrary", "%d inner domains" % min(len(doms), 4))
    return doms, hs, outer, mono, w, res, err, what, hi, lo


def outer_choice(outer, lo, hi):
    """The inner domain in which the search takes place (None: rejected)."""
    k = model(outer, lo, hi)
    return None if k is None else max(k - 1, 0)


def belongs(doms, hs, sel):
    for i, d in enumerate(doms):
        for j, f in enumerate(d):
            if fake.key(f) == fake.key(sel):
                return i, j
    return None


def check_2d(case, lab):
    doms, hs, outer, mono, w, res, err, what, hi, lo = run(case, "Bisection2D", lab)
    if mono:
        i = outer_choice(outer, lo, hi)
        j = None if i is None else model(hs[i], lo, hi)
        if j is None:
            lab("rejected")
            expect(res is None, "%s selects %s although it should be rejected", what, None if res is None else res.selection_key)
            return
        expect(res is not None, "%s is rejected: %s", what, err)
        expect(fake.key(res.selected_coordinates) == fake.key(doms[i][j]), "%s selects %d boreholes (inner domain and field %s), not field %d of inner domain %d", what,
               len(res.selected_coordinates), belongs(doms, hs, res.selected_coordinates), j, i)
        expect(res.selection_key == j, "%s reports field %r of its inner domain, not %d", what, res.selection_key, j)
        lab("inner domain %s" % ("0" if i == 0 else "last" if i == len(doms) - 1 else "inside"))
        lab.nt(i > 0)
    elif res is None:
        lab("rejected")
        return
    k = belongs(doms, hs, res.selected_coordinates)
    expect(k is not None, "%s selects a field that is not in the domain", what)
    expect(hs[k[0]][k[1]] <= hi, "%s selects field %s that needs %r m", what, k, hs[k[0]][k[1]])
    final(case, res.ghe, doms[k[0]][k[1]], hi, what)
    consistent(case, w, what)


def check_zd(case, lab):
    doms, hs, outer, mono, w, res, err, what, hi, lo = run(case, "BisectionZD", lab)
    if mono:
        start = outer_choice(outer, lo, hi)
        best, trail = None, []
        if start is not None:
            last = None
            for i in range(start, min(len(doms), start + 7)):
                j = model(hs[i], lo, hi)
                if j is None:
                    break
                total = len(doms[i][j]) * min(max(hs[i][j], lo), hi)
                trail.append((total, i, j))
                if last is not None and total > last:
                    break
                last = total
        if not trail:
            lab("rejected")
            expect(res is None, "%s selects %s although it should be rejected", what, None if res is None else res.selection_key)
            return
        best = min(trail)
        expect(res is not None, "%s is rejected: %s", what, err)
        k = belongs(doms, hs, res.selected_coordinates)
        expect(k is not None, "%s selects a field that is not in the domain", what)
        ties = [t[1:] for t in trail if abs(t[0] - best[0]) <= 1e-9 * best[0]]
        expect(k in ties, "%s selects field %d of inner domain %d, not %s (drilling %s)", what, k[1], k[0], ties, trail)
        expect(res.selection_key == k[1], "%s reports field %r of its inner domain, not %d", what, res.selection_key, k[1])
        lab("compares %s" % (len(trail) if len(trail) < 4 else "4 to 6" if len(trail) < 7 else "7"), "starts %s" % ("first" if start == 0 else "later"))
        lab.nt(len(trail) > 1)
    elif res is None:
        lab("rejected")
        return
    k = belongs(doms, hs, res.selected_coordinates)
    expect(k is not None, "%s selects a field that is not in the domain", what)
    need = hs[k[0]][k[1]]
    expect(need <= hi, "%s selects field %s that needs %r m", what, k, need)
    final(case, res.ghe, doms[k[0]][k[1]], hi, what, height=False)
    want = min(max(need, lo), hi)
    expect_close(res.ghe.bhe.b.H, want, "%s: the height of the selected field %s" % (what, k), rel=1e-9)
    expect_close(res.ghe.fake_size or 0.0, want, "%s: the selected field %s is sized" % (what, k), rel=1e-9)


@st.composite
def cases(draw):
    lo, hi = draw(st.sampled_from([(60.0, 135.0), (60, 135), (20.0, 50.0), (30.5, 200.0)]))
    c = {"limits": [lo, hi], "B": draw(st.sampled_from([5.0, 4.3])), "width": draw(st.integers(1, 5)), "monotone": draw(st.sampled_from([True, True, True, False]))}
    m = draw(st.one_of(st.integers(1, 5), st.integers(1, 12)))
    inner, start = [], draw(st.sampled_from([1, 1, 3]))
    ends = sorted(draw(st.lists(st.floats(0.0, 0.9), min_size=m, max_size=m, unique=True)), reverse=True)
    for i in range(m):
        n = draw(st.one_of(st.integers(1, 4), st.integers(1, 15)))
        step = draw(st.sampled_from([1, 1, 2, 4]))
        last = ends[i] if c["monotone"] else draw(st.floats(0.0, 1.0))
        # the first field of a later inner domain needs more or less than the last one of the one before
        req = [round(last + x * (1.2 - last), 9) for x in draw(st.lists(st.floats(0.0, 1.0), min_size=n - 1, max_size=n - 1))] + [round(last, 9)]
        inner.append([[start + step * j for j in range(n)], req])
        start += draw(st.sampled_from([0, 1, 2, n // 2, n]))
    c["inner"] = inner
    c["amplitude"] = draw(st.sampled_from([4.0, 50.0, 0.01]))
    c["side"] = draw(st.sampled_from(["max", "min"]))
    c["flow"] = draw(st.sampled_from(["borehole", "borehole", "system"]))
    c["V"] = draw(st.sampled_from([0.2, 31.2, 17.4368]))
    c["method"] = draw(st.sampled_from(["hybrid", "hybrid", "hourly"]))
    c["disp"] = draw(st.sampled_from([False, True]))
    c["H"] = draw(st.sampled_from([96.0, 60.0, 200.0]))
    c["alike"] = draw(st.sampled_from([False, False, True]))
    if c["alike"] and draw(st.booleans()):
        for d in inner:
            d[0] = [4 + n - d[0][0] for n in d[0]]
    return c


@st.composite
def zoned(draw):
    c = draw(cases())
    c["method"] = "hybrid"
    return c


@st.composite
def drillings(draw):
    """Inner domains whose selections have nearly or exactly the same total drilling."""
    c = draw(zoned())
    lo, hi = c["limits"] = draw(st.sampled_from([[20.0, 300.0], [20, 300], [30.5, 200.0]]))
    c["monotone"] = True
    c["metres"] = True
    total = draw(st.sampled_from([6000.0, 4800.0, 7200.0]))
    big = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 20]))      # more than 100 km of drilling
    total *= big
    down = draw(st.sampled_from([False, False, False, True]))       # it keeps falling: the comparison ends after seven
    counts = sorted(draw(st.lists(st.sampled_from([24, 25, 30, 32, 40, 48, 50, 60, 75, 80, 96, 100, 120, 150, 160, 200]), min_size=7 if down else 2, max_size=11 if down else 8, unique=True)))
    c["inner"] = []
    for i, n in enumerate(counts):
        n = n * big if n * big < 2500 else n
        if i:
            total *= 1.0 + draw(st.sampled_from([-1e-3, -1e-2, -1e-6]) if down else st.sampled_from([0.0, 0.0, 0.0, -1e-9, 1e-9, -1e-6, 1e-6, -1e-4, 1e-4, -0.01, -0.05, 0.01]))
        h = total / n
        more = draw(st.integers(1, 3))
        if c["inner"] and n <= c["inner"][-1][0][-1]:
            continue
        c["inner"].append([[1 + k for k in range(more)] + [n], [hi * (1.1 + 0.1 * (more - k)) for k in range(more)] + [h]])
    return c


SUBCHECKS = [
    Sub("two", check_2d, cases, quick=2500, thorough=50000),
    Sub("zoned", check_zd, zoned, quick=2500, thorough=50000),
    Sub("drilling", check_zd, drillings, quick=600, thorough=20000),
]

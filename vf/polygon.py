"""Reference point-in-polygon classification (independent of OpenCV)."""
import math


def edges(poly):
    n = len(poly)
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        if a[0] != b[0] or a[1] != b[1]:
            yield float(a[0]), float(a[1]), float(b[0]), float(b[1])


def seg_dist(px, py, ax, ay, bx, by):
    dx, dy = bx - ax, by - ay
    t = ((px - ax) * dx + (py - ay) * dy) / (dx * dx + dy * dy)
    t = min(1.0, max(0.0, t))
    return math.hypot(px - ax - t * dx, py - ay - t * dy)


def same(a, b):
    """Equal up to a few rounding errors (the code compares 32-bit values); a tiny number is not zero."""
    return abs(a - b) <= 1e-12 * abs(b)


def classify(p, poly, band):
    """'in', 'out', 'on' (exactly on an axis-parallel edge or a vertex) or '?' (too close to an edge to tell)."""
    px, py = float(p[0]), float(p[1])
    dmin = float("inf")
    for ax, ay, bx, by in edges(poly):
        dmin = min(dmin, seg_dist(px, py, ax, ay, bx, by))
        if (same(px, ax) and same(py, ay)) or (same(px, bx) and same(py, by)):
            return "on"
        if (ax == bx and same(px, ax) and min(ay, by) < py < max(ay, by)) or \
                (ay == by and same(py, ay) and min(ax, bx) < px < max(ax, bx)):
            return "on"
    if dmin <= band:
        return "?"
    inside = False
    for ax, ay, bx, by in edges(poly):
        if (ay > py) != (by > py):
            x = ax + (py - ay) * (bx - ax) / (by - ay)
            if px < x:
                inside = not inside
    return "in" if inside else "out"

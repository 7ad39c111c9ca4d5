"""Generators of land sizes and spacing limits that admit a whole division of the sides."""
from hypothesis import strategies as st


def nice(lo, hi):
    """Lengths as users write them: whole, one or two decimals, or arbitrary."""
    return st.builds(_round, st.floats(lo, hi), st.sampled_from([0, 1, 2, 2, None]), st.just(lo), st.just(hi))


def _round(x, digits, lo, hi):
    if digits is None:
        return x
    r = round(x, digits)
    return r if lo <= r <= hi else x


@st.composite
def side(draw, bmin, nmax=14, nmin=2):
    """(length, bmax) so that a whole number of spacings between bmin and bmax fits, with at least nmin boreholes."""
    how = draw(st.integers(0, 2))
    n = draw(st.integers(nmin, nmax))
    if how == 0:      # the length is a multiple of the minimum spacing
        length = bmin * (n - 1)
        bmax = bmin * draw(st.sampled_from([1, 1.5, 2, 3, 1.01]))
    elif how == 1:    # arbitrary length, loose maximum
        length = draw(nice(bmin * (n - 1), bmin * n))
        length = max(length, bmin * (n - 1))
        bmax = draw(nice(bmin, bmin * 4))
    else:
        length = draw(nice(bmin * (n - 1), bmin * n))
        length = max(length, bmin * (n - 1))
        k = draw(st.integers(1, n - 1))
        bmax = length / k      # the maximum divides the length
    return length, max(bmax, bmin)


def bmins():
    return st.one_of(st.sampled_from([3.0, 4.45, 5.0, 6.1, 2.5, 4.0]), nice(1.0, 12.0))

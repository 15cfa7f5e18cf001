"""Shared strategies (plain python data only, so that cases pickle and shrink)."""
import math

from hypothesis import strategies as st


def fl(lo, hi, **k):
    return st.floats(min_value=lo, max_value=hi, allow_nan=False, allow_infinity=False,
                     allow_subnormal=False, **k)


def nice(lo, hi, decimals=3):
    """Decimal numbers with few digits: exact in text formats, quick to shrink."""
    s = 10 ** decimals
    return st.integers(math.ceil(lo * s), math.floor(hi * s)).map(lambda i: i / s)


#: angles in degrees, with the awkward ones made likely
angle360 = st.one_of(fl(0, 359.999), st.sampled_from([0.0, 90.0, 180.0, 270.0, 359.9, 0.1]))
angle_any = st.one_of(fl(-720, 720), st.sampled_from(
    [0.0, 30.0, 45.0, 90.0, -90.0, 180.0, -180.0, 270.0, 360.0, 359.999, -0.001]))
small_angle = st.one_of(fl(-40, 40), st.just(0.0))
lat = st.one_of(fl(-85, 85), st.sampled_from([0.0, 50.9, -33.85, 1e-4, -1e-4]))
lon = st.one_of(fl(-180, 180), st.sampled_from([0.0, -1.4, 151.2, 179.9999, -179.9999]))
metres = st.one_of(fl(-5000, 5000), fl(-1e5, 1e5), st.sampled_from([0.0, 1.0, -1.0, 1e-3]))
#: epochs in [1975, 2065)
epoch = st.one_of(fl(1.6e8, 3.0e9), st.integers(160000000, 3000000000).map(float))


def times(min_size=2, max_size=12, lo=1.2e9, hi=1.7e9, min_dt=0.05, max_dt=20.0):
    """strictly increasing time stamps"""
    return st.tuples(
        st.integers(int(lo), int(hi)),
        st.lists(nice(min_dt, max_dt, 2), min_size=min_size - 1, max_size=max_size - 1),
    ).map(lambda x: _cum(float(x[0]), x[1]))


def _cum(t0, dts):
    out = [t0]
    for d in dts:
        out.append(round(out[-1] + d, 3))
    return out

"""C02: local metric coordinates and latitude/longitude are consistent (WGS84)."""
import math

from geographiclib.geodesic import Geodesic
from hypothesis import strategies as st

from gen import angle_any, epoch, fl, lat, lon, metres
from pbt import angdiff, require, require_close, sub

from auv_nav.sensors import Usbl
from auv_nav.tools.latlon_wgs84 import latlon_to_metres, metres_to_latlon

G = Geodesic.WGS84


@sub("C02", "offset_round_trip", st.fixed_dictionaries(
    {"lat": lat, "lon": lon, "e": metres, "n": metres}), quick=6000, thorough=150000,
    rule="both offsets are larger than 1 mm")
def offsets(c, t):
    la, lo = metres_to_latlon(c["lat"], c["lon"], c["e"], c["n"])
    require(-90 <= la <= 90 and -180 <= lo <= 180, "out of range lat/lon %r %r" % (la, lo))
    d, b = latlon_to_metres(la, lo, c["lat"], c["lon"])
    require(d >= 0, "negative distance")
    e, n = d * math.sin(math.radians(b)), d * math.cos(math.radians(b))
    tol = 1e-6 + 1e-9 * (abs(c["e"]) + abs(c["n"]))
    # 1e-9 deg resolution of lon near the poles
    require_close([e, n], [c["e"], c["n"]], "offset after a round trip", 0, tol + 2e-6)
    ref = G.Direct(c["lat"], c["lon"], math.degrees(math.atan2(c["e"], c["n"])),
                   math.hypot(c["e"], c["n"]))
    require_close(la, ref["lat2"], "latitude", 0, 1e-10)
    require(abs(angdiff(lo, ref["lon2"])) < 1e-10, "longitude %r, expected %r" % (lo, ref["lon2"]))
    if c["n"] > 1 and abs(c["e"]) < 5e4:
        require(la > c["lat"] - 0.02, "moving north lowers the latitude")
    t.nontrivial(abs(c["e"]) > 1e-3 and abs(c["n"]) > 1e-3)
    t.label("crosses the antimeridian", abs(lo - c["lon"]) > 180)
    t.label("southern", c["lat"] < 0)
    t.label("western", c["lon"] < 0)


@sub("C02", "between_points", st.fixed_dictionaries(
    {"a": st.tuples(lat, lon), "d": st.tuples(fl(-2, 2), fl(-2, 2))}), quick=4000, thorough=100000,
    rule="the two points differ in latitude and in longitude")
def between(c, t):
    la, lo = c["a"]
    la2 = max(-86.0, min(86.0, la + c["d"][0]))
    lo2 = angdiff(lo + c["d"][1], 0)
    d, b = latlon_to_metres(la2, lo2, la, lo)
    ref = G.Inverse(la, lo, la2, lo2)
    require_close(d, ref["s12"], "distance", 1e-12, 1e-7)
    if ref["s12"] > 1e-3:
        require(abs(angdiff(b, ref["azi1"])) < 1e-7, "bearing %r, expected %r" % (b, ref["azi1"]))
    back, _ = latlon_to_metres(la, lo, la2, lo2)
    require_close(d, back, "distance is symmetric", 1e-12, 1e-6)
    e, n = d * math.sin(math.radians(b)), d * math.cos(math.radians(b))
    p, q = metres_to_latlon(la, lo, e, n)
    require_close(p, la2, "latitude after a round trip", 0, 1e-9)
    require(abs(angdiff(q, lo2)) < 1e-8, "longitude after a round trip: %r, expected %r" % (q, lo2))
    t.nontrivial(abs(la2 - la) > 1e-6 and abs(angdiff(lo, lo2)) > 1e-6)
    t.label("antimeridian", abs(lo2 - lo) > 180)


@sub("C02", "usbl_local", st.fixed_dictionaries(
    {"ref": st.tuples(lat, lon), "e": fl(-2e4, 2e4), "n": fl(-2e4, 2e4), "depth": fl(0, 6000),
     "t": epoch, "factor": fl(0, 0.1), "offset": fl(0, 20), "how": st.integers(0, 2)}),
    quick=3000, thorough=60000, rule="both offsets are larger than 1 m")
def usbl(c, t):
    """a position fix is expressed in metres relative to the dive's origin"""
    p = G.Direct(c["ref"][0], c["ref"][1], math.degrees(math.atan2(c["e"], c["n"])),
                 math.hypot(c["e"], c["n"]))
    u = Usbl(c["factor"], c["offset"], c["ref"][0], c["ref"][1])
    if c["how"] == 0:
        u.from_alr(c["t"], p["lat2"], p["lon2"], c["depth"])
    elif c["how"] == 1:
        u.from_gga(c["t"], p["lat2"], p["lon2"], c["depth"])
    else:
        u.from_koyo21rov(c["t"], p["lat2"], p["lon2"], c["depth"])
    require_close([u.eastings, u.northings], [c["e"], c["n"]], "eastings/northings", 0, 1e-4)
    require_close([u.latitude, u.longitude, u.depth, u.epoch_timestamp],
                  [p["lat2"], p["lon2"], c["depth"], c["t"]], "fix", 0, 0)
    std = c["factor"] * c["depth"] + c["offset"]
    require_close([u.eastings_std, u.northings_std, u.depth_std], [std] * 3, "uncertainty", 1e-12)
    if abs(p["lat2"]) < 85:
        deg = std / 111200
        require(0.98 * deg - 1e-12 <= u.latitude_std <= 1.02 * deg + 1e-12,
                "latitude uncertainty %r degrees for %r m" % (u.latitude_std, std))
        deg /= math.cos(math.radians(p["lat2"]))
        require(0.98 * deg - 1e-12 <= u.longitude_std <= 1.02 * deg + 1e-12,
                "longitude uncertainty %r degrees for %r m at %r" % (u.longitude_std, std, p["lat2"]))
    require(u.valid(), "the fix is not valid")
    t.nontrivial(abs(c["e"]) > 1 and abs(c["n"]) > 1)


@sub("C02", "declination", st.fixed_dictionaries(
    {"ref": st.tuples(lat, lon), "e": fl(-2e3, 2e3), "n": fl(-2e3, 2e3), "d": fl(-0.6, 0.6)}),
    quick=800, thorough=20000, rule="declination and offset are not zero")
def declination(c, t):
    u = Usbl(0.01, 1.0, c["ref"][0], c["ref"][1])
    u.northings, u.eastings, u.depth = c["n"], c["e"], 10.0
    u.set_magnetic_declination(c["d"])
    u.apply_declination()
    require_close(math.hypot(u.northings, u.eastings), math.hypot(c["n"], c["e"]),
                  "range is preserved by the declination", 1e-9, 1e-9)
    if math.hypot(c["n"], c["e"]) > 0.1:
        turn = math.degrees(math.atan2(u.eastings, u.northings) - math.atan2(c["e"], c["n"]))
        require(abs(angdiff(turn, math.degrees(c["d"]))) < 1e-6,
                "bearing turned by %r deg for a declination of %r rad" % (turn, c["d"]))
    la, lo = metres_to_latlon(c["ref"][0], c["ref"][1], u.eastings, u.northings)
    require_close([u.latitude, u.longitude], [la, lo], "lat/lon follow the rotated offset", 0, 1e-10)
    t.nontrivial(abs(c["d"]) > 1e-3 and math.hypot(c["n"], c["e"]) > 1)

"""Raw sensor files of generated dives (PHINS logs, NMEA position fixes, tide tables)."""
import math
from datetime import datetime, timedelta, timezone
from pathlib import Path

import yaml
from hypothesis import strategies as st

from gen import nice

ZONES = [("utc", 0.0), ("UTC", 0.0), (0, 0.0), ("jst", 9.0), ("JST", 9.0), ("cet", 1.0), ("CET", 1.0),
         (1, 1.0), (-3, -3.0), (5.5, 5.5), ("-7", -7.0), ("2.5", 2.5)]


def cs(body):
    x = 0
    for ch in body:
        x ^= ord(ch)
    return "%02X" % x


def telegram(body, broken=False, lower=False):
    """body without $; a broken telegram has a wrong checksum"""
    c = cs(body)
    if broken:
        c = "%02X" % ((int(c, 16) + 1) % 256)
    return "$%s*%s" % (body, c.lower() if lower else c)


def hms(epoch, zone_h, digits=3):
    """clock text of an instant on a clock in this zone"""
    d = datetime.fromtimestamp(0, timezone.utc) + timedelta(milliseconds=round(epoch * 1000)) \
        + timedelta(hours=zone_h)
    return d, d.strftime("%H%M%S") + "." + ("%06d" % d.microsecond)[:digits]


@st.composite
def phins_log(draw, min_frames=1, max_frames=12, faults=True):
    """{"date", "zone", "offset", "frames"}: each frame is a list of telegrams with one time stamp.
    Times are local clock times of one day, so a log never crosses midnight of that clock."""
    zone = draw(st.sampled_from(ZONES))
    day = draw(st.integers(14000, 19500))  # days since 1970
    offset = draw(st.sampled_from([0.0, 0.0, 1.5, -0.75, 3600.0]))
    n = draw(st.integers(min_frames, max_frames))
    t = draw(st.integers(0, 80000)) + 0.0
    frames = []
    val = nice(-20, 20, 3)
    for i in range(n):
        t = round(t + draw(nice(0.05, 60, 3)), 3)
        if t >= 86399:
            break
        f = {"t": t, "heading": draw(nice(0, 359.99, 2)), "att": draw(st.tuples(val, val)),
             "std": draw(st.tuples(nice(0, 3, 3), nice(0, 3, 3), nice(0, 3, 3))),
             "dvl": draw(st.tuples(nice(-3, 3, 3), nice(-3, 3, 3), nice(-3, 3, 3))),
             "dvl_lag": draw(st.sampled_from([0.0, 0.1, -0.04])),
             "speed": draw(st.tuples(nice(-3, 3, 3), nice(-3, 3, 3), nice(-3, 3, 3))),
             "speed_std": draw(st.tuples(nice(0, 1, 3), nice(0, 1, 3), nice(0, 1, 3))),
             "depth": draw(nice(0, 6000, 2)), "depth_lag": draw(st.sampled_from([0.0, -0.02])),
             "alt": draw(nice(0, 200, 2)), "sv": draw(nice(1400, 1550, 1)),
             "svc": draw(nice(-5, 5, 2)), "fault": None, "lower": draw(st.booleans()), "micros": draw(st.sampled_from([False, False, True])),
             "has": draw(st.sampled_from(["all"] * 6 + ["att", "dvl", "depth"]))}
        if f["t"] + f["dvl_lag"] < 0 or f["t"] + f["depth_lag"] < 0:
            f["dvl_lag"] = f["depth_lag"] = 0.0
        if faults:
            f["fault"] = draw(st.sampled_from([None] * 8 + [
                "sixty", "attitude", "LOGIN_", "DEPIN_", "LOGDVL", "SPEED_", "noise", "truncated",
                "sixty dvl", "sixty depth"]))
        frames.append(f)
    return {"day": day, "zone": zone, "offset": offset, "frames": frames}


def day0(log):
    """UTC epoch of midnight of the log's clock"""
    return log["day"] * 86400 - log["zone"][1] * 3600


def date_of(log):
    return (datetime(1970, 1, 1) + timedelta(days=log["day"])).strftime("%Y%m%d")


def clock(s, micros=False):
    """hhmmss.fff, or hhmmss.ffffff"""
    ms = round(s * 1000)
    return ("%02d%02d%02d.%03d" + ("000" if micros else "")) % (ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000)


def sixty(text):
    return text[:4] + "60" + text[6:]


def phins_text(log):
    out = []
    for f in log["frames"]:
        x = f["fault"]
        has = f["has"]

        def add(kind, body):
            broken = kind == x or (x == "attitude" and kind in ("HEHDT", "ATITUD"))
            line = telegram(body, broken, f["lower"])
            if x == "truncated" and kind == "LOGIN_":
                line = line[:-6]
            out.append(line)

        tt = clock(f["t"], f.get("micros"))
        add("TIME__", "PIXSE,TIME__,%s" % (sixty(tt) if x == "sixty" else tt))
        if x == "noise":
            out.extend(["", "$PIXSE,LOGIN_,9,9,9", "garbage * more * stars", "$GPZDA,1,2*00",
                        telegram("PHTRO,1.2,P,3.4,T")])
        if has in ("all", "att"):
            add("HEHDT", "HEHDT,%.2f,T" % f["heading"])
            add("ATITUD", "PIXSE,ATITUD,%.3f,%.3f" % f["att"])
            add("STDHRP", "PIXSE,STDHRP,%.3f,%.3f,%.3f" % f["std"])
        if has == "all":
            add("POSITI", "PIXSE,POSITI,1.0,2.0,3.0")
            add("SPEED_", "PIXSE,SPEED_,%.3f,%.3f,%.3f" % f["speed"])
            add("STDSPD", "PIXSE,STDSPD,%.3f,%.3f,%.3f" % f["speed_std"])
        if has in ("all", "dvl"):
            vt = clock(f["t"] + f["dvl_lag"], f.get("micros"))
            add("LOGIN_", "PIXSE,LOGIN_,%.3f,%.3f,%.3f,0.0,%s" % (f["dvl"] + (
                sixty(vt) if x == "sixty dvl" else vt,)))
            add("LOGDVL", "PIXSE,LOGDVL,%.2f,%.2f,%.2f" % (f["sv"], f["svc"], f["alt"]))
        if has in ("all", "depth"):
            dt = clock(f["t"] + f["depth_lag"], f.get("micros"))
            add("DEPIN_", "PIXSE,DEPIN_,%.2f,%s" % (f["depth"], sixty(dt) if x == "sixty depth"
                                                    else dt))
    return "\r\n".join(out) + "\r\n"


FRAMES = ("origin", "ins", "dvl", "depth", "usbl", "LC", "RC", "LM")


def frame(v=(0, 0, 0), yaw=0.0):
    return {"surge_m": v[0], "sway_m": v[1], "heave_m": v[2], "roll_deg": 0, "pitch_deg": 0,
            "yaw_deg": yaw}


def nmea_deg(x, width):
    a = abs(x)
    d = int(a)
    return "%0*d%010.7f" % (width, d, (a - d) * 60)


def gga(clock_text, lat, lon, height, beacon, broken=False):
    body = "GPGGA,%s,%s,%s,%s,%s,1,08,0.9,%.2f,M,0.0,M,1.0,%04d" % (
        clock_text, nmea_deg(lat, 2), "N" if lat >= 0 else "S", nmea_deg(lon, 3),
        "E" if lon >= 0 else "W", height, beacon)
    return telegram(body, broken)

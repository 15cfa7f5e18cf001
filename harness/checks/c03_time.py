"""C03: every time stamp becomes the same UTC epoch, whatever its zone, format or host."""
import datetime as dt
import os
import time

import pytz
from hypothesis import strategies as st

from gen import fl, nice
from pbt import fail, require, require_close, sub

from auv_nav.parsers.parse_phins import PhinsTimestamp
from auv_nav.tools.time_conversions import (
    date_time_to_epoch,
    datetime_tz_to_epoch,
    epoch_from_json,
    epoch_to_day,
    epoch_to_datetime,
    read_timezone,
    string_to_epoch,
)
from oplab import FilenameToDate

HOST_ZONES = ["UTC", "Asia/Tokyo", "America/Los_Angeles", "Europe/London", "Australia/Adelaide",
              "Asia/Kathmandu"]
host = st.sampled_from(HOST_ZONES)
#: calendar instants, with month ends, leap days, midnight and new year made likely
cal = st.one_of(
    st.datetimes(dt.datetime(1975, 1, 1), dt.datetime(2070, 1, 1)),
    st.sampled_from([dt.datetime(2016, 2, 29, 23, 59, 59, 999000),
                     dt.datetime(2019, 12, 31, 23, 59, 59, 1000),
                     dt.datetime(2020, 1, 1), dt.datetime(2018, 3, 25, 1, 30),
                     dt.datetime(2018, 10, 28, 1, 30), dt.datetime(2021, 8, 5, 9, 9, 9, 45000)]),
)
EPOCH0 = dt.datetime(1970, 1, 1)


def utc(d):
    delta = d - EPOCH0
    return delta.days * 86400 + delta.seconds + delta.microseconds * 1e-6


class HostTz:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.name
        time.tzset()

    def __exit__(self, *a):
        os.environ["TZ"] = self.old or "UTC"
        time.tzset()


offset_h = st.one_of(st.sampled_from([0, 1, 9, -8, 5.5, 5.75, -3.5]), fl(-14, 14),
                     st.integers(-12, 14))


@sub("C03", "calendar", st.fixed_dictionaries(
    {"d": cal, "off": offset_h, "host": host}), quick=3000, thorough=80000,
    rule="the zone offset moves the instant to another day, or the host zone is not UTC")
def calendar_(c, t):
    d = c["d"]
    with HostTz(c["host"]):
        e = date_time_to_epoch(d.year, d.month, d.day, d.hour, d.minute, d.second, c["off"],
                               d.microsecond)
        e0 = date_time_to_epoch(d.year, d.month, d.day, d.hour, d.minute, d.second)
        require_close(e, utc(d) - c["off"] * 3600, "epoch of %s at UTC%+g" % (d, c["off"]), 0, 2e-6)
        require_close(e0, float(int(utc(d.replace(microsecond=0)))), "epoch of %s UTC" % d, 0, 0)
        # text form used in directory names, and its inverse
        s = epoch_to_datetime(e0)
        require(s == d.strftime("%Y%m%d%H%M%S"), "epoch_to_datetime gives %s for %s" % (s, d))
        require_close(string_to_epoch(s), e0, "string_to_epoch(%s)" % s, 0, 0)
        require(epoch_to_datetime(string_to_epoch(s)) == s, "text -> epoch -> text")
        frac = e0 + d.microsecond * 1e-6
        require(epoch_to_datetime(frac) == s, "fractions of a second change the text form")
        require_close(epoch_from_json({"epoch_timestamp": frac}), frac, "epoch_from_json", 0, 0)
    t.nontrivial(c["host"] != "UTC" or (d - dt.timedelta(hours=c["off"])).day != d.day)


@sub("C03", "zones", st.fixed_dictionaries(
    {"z": st.one_of(st.sampled_from(["utc", "UTC", "jst", "JST", "cet", "CET", "bst", "BST"]),
                    offset_h)}), quick=300, thorough=5000, rule="the offset is not zero")
def zones(c, t):
    z = c["z"]
    want = {"utc": 0, "jst": 9, "cet": 1, "bst": 1}[z.lower()] if isinstance(z, str) else float(z)
    require_close(read_timezone(z), want, "offset of zone %r in hours" % (z,), 0, 0)
    t.nontrivial(want != 0)


ZN = ["Europe/London", "Asia/Tokyo", "America/New_York", "Australia/Sydney", "UTC",
      "Asia/Kathmandu", "Pacific/Auckland"]


@sub("C03", "named_zone", st.fixed_dictionaries({"d": cal, "z": st.sampled_from(ZN), "host": host}),
     quick=1500, thorough=30000, rule="the zone is not UTC")
def named(c, t):
    tz = pytz.timezone(c["z"])
    try:
        want = tz.localize(c["d"], is_dst=None)
    except (pytz.AmbiguousTimeError, pytz.NonExistentTimeError):
        return
    with HostTz(c["host"]):
        got = datetime_tz_to_epoch(c["d"], c["z"])
    require_close(got, utc(c["d"]) - want.utcoffset().total_seconds(), "epoch of %s %s" % (c["d"], c["z"]),
                  0, 2e-6)
    t.nontrivial(c["z"] != "UTC")


@sub("C03", "phins_time", st.fixed_dictionaries(
    {"d": cal, "off": st.sampled_from([0, 9, -8, 5.5, "JST", "utc"]), "shift": nice(-100, 100),
     "usec": st.booleans()}), quick=1000, thorough=20000, rule="zone or clock offset is not zero")
def phins_time(c, t):
    d = c["d"].replace(microsecond=c["d"].microsecond // 1000 * 1000)
    ts = PhinsTimestamp((d.year, d.month, d.day), c["off"], c["shift"])
    txt = d.strftime("%H%M%S.") + ("%06d" % d.microsecond if c["usec"] else "%03d" % (d.microsecond // 1000))
    got = ts.epoch_timestamp_from_phins(["$PIXSE", "TIME__", txt + ""])
    off = {"JST": 9, "utc": 0}.get(c["off"], c["off"])
    want = utc(d) - off * 3600 + c["shift"]
    require(got is not None or len(txt) not in (10, 13), "time %s was rejected" % txt)
    if got is not None:
        require_close(got, want, "phins time %s" % txt, 0, 2e-6)
    # leap-second style packets are rejected, never mapped to another time
    bad = d.strftime("%H%M") + "60.000"
    require(ts.epoch_timestamp_from_phins(["$PIXSE", "TIME__", bad]) is None, "60 s accepted")
    t.nontrivial(off != 0 or c["shift"] != 0)


# -- stamps in file names ----------------------------------------------------
TOK = {"Y": "%Y", "M": "%m", "D": "%d", "h": "%H", "m": "%M", "s": "%S"}


@st.composite
def name_case(draw):
    d = draw(cal)
    order = draw(st.permutations([draw(st.sampled_from(["YYYY", "YYYY", "YY"])), "MM", "DD", "hh", "mm", "ss"]))
    if "YY" in order:  # years of this century
        d = d.replace(year=2000 + draw(st.integers(0, 99)), day=min(d.day, 28))
    frac = draw(st.sampled_from(["", "fff", "fffuuu"]))
    junk = st.text("ABCRLZ_-0123456789", min_size=0, max_size=4)
    parts = []
    for tok in list(order) + ([frac] if frac else []):
        parts.append((tok, draw(junk)))
    return {"d": d, "lead": draw(junk), "parts": parts, "ext": draw(st.sampled_from(
        [".png", ".tif", ".raw", ".jpg"])), "folder": draw(st.sampled_from(["", "a/", "/x/y.z/"])),
        "host": draw(host)}


@sub("C03", "file_names", name_case(), quick=3000, thorough=60000,
     rule="the name has sub-second digits, separators or a host zone other than UTC")
def file_names(c, t):
    d = c["d"]
    name, fmt = c["lead"], "x" * len(c["lead"])
    us = 0
    for tok, junk in c["parts"]:
        if tok == "fff":
            name += "%03d" % (d.microsecond // 1000)
            us = d.microsecond // 1000 * 1000
        elif tok == "fffuuu":
            name += "%06d" % d.microsecond
            us = d.microsecond
        elif tok == "YY":
            name += "%02d" % (d.year - 2000)
        else:
            name += d.strftime(TOK[tok[0]]).rjust(len(tok), "0")
        fmt += tok + "x" * len(junk)
        name += junk
    with HostTz(c["host"]):
        got = FilenameToDate(fmt + "." + "x" * (len(c["ext"]) - 1))(c["folder"] + name + c["ext"])
        got2 = FilenameToDate(fmt)(c["folder"] + name + c["ext"])
    want = utc(d.replace(microsecond=0)) + us * 1e-6
    require_close(got, want, "stamp of %s with format %s" % (name, fmt), 0, 2e-6)
    require_close(got2, want, "stamp of %s with format %s" % (name, fmt), 0, 2e-6)
    t.nontrivial(us > 0 or c["host"] != "UTC" or any(j for _, j in c["parts"]))


@st.composite
def table_case(draw):
    n = draw(st.integers(1, 6))
    ds = draw(st.lists(cal, min_size=n, max_size=n))
    idx = draw(st.lists(st.integers(0, 99999), min_size=n, max_size=n, unique=True))
    return {"ds": ds, "idx": idx, "extra": draw(st.integers(0, 2)), "q": draw(st.integers(0, n - 1)),
            "file": draw(st.sampled_from([None, None, "content", "ignored"])), "epoch": draw(st.integers(0, 4)) == 0,
            "host": draw(host), "prefix": draw(st.sampled_from(["image", "LM165_", ""]))}


@sub("C03", "stamp_table", table_case(), quick=250, thorough=3000,
     rule="the table has at least two rows")
def table(c, t):
    d = t.scratch() / "raw" / "dive" / "cam"
    d.mkdir(parents=True)
    f = d / "FileTime.csv"
    named = ["file"] if c["file"] else []
    lines = [",".join(["index", "date"] + named + ["time", "ms", "elapsetime", "gpio (0xXX)"])]
    for i, s in zip(c["idx"], c["ds"]):
        lines.append(",".join(["%07d" % i, s.strftime("%Y").rjust(4, "0") + s.strftime("%m%d")]
                              + ["%s%07d.raw" % (c["prefix"], i)] * len(named) + [
                               s.strftime("%H%M%S"), "%03d" % (s.microsecond // 1000), "1234", "12"]
                              + ["7"] * c["extra"]))
    f.write_text("\n".join(lines) + "\n")
    cols = [{"name": "index", "content": "iiiiiii"}, {"name": "date", "content": "YYYYMMDD"},
            {"name": "time", "content": "hhmmss"}, {"name": "ms", "content": "fff"}]
    if c["file"] == "content":
        cols.insert(len(c["ds"]) % 5, {"name": "file", "content": "filename"})
    if c["epoch"]:  # a column of epochs wins over calendar columns
        cols, head = [cols[0], {"name": "stamp", "content": "epoch_timestamp"}], ["index,stamp,temperature"]
        assert cols[0]["name"] in ("index", "file")
        cols[0] = {"name": "index", "content": "iiiiiii"}
        lines = head + ["%07d,%.3f,12.5" % (i, utc(s.replace(microsecond=s.microsecond // 1000 * 1000)))
                        for i, s in zip(c["idx"], c["ds"])]
        f.write_text("\n".join(lines) + "\n")
        t.label("epochs")
    t.label("file names in the table", bool(named))
    with HostTz(c["host"]):
        f2d = FilenameToDate("x" * len(c["prefix"]) + "iiiiiii.xxx", "cam/FileTime.csv", cols,
                             d.parent)
        for i, s in zip(c["idx"], c["ds"]):
            got = f2d("/some/where/%s%07d.raw" % (c["prefix"], i))
            try:
                got = float(got)
            except (TypeError, ValueError):
                fail("no epoch for image %d: %r" % (i, got))
            want = utc(s.replace(microsecond=s.microsecond // 1000 * 1000))
            require_close(got, want, "epoch of image %d" % i, 0, 2e-6)
    t.nontrivial(len(c["idx"]) > 1)


@sub("C03", "epoch_in_name", st.fixed_dictionaries(
    {"e": st.integers(0, 4102444799), "pre": st.text("abc_", max_size=5)}), quick=300, thorough=3000,
    rule="always")
def epoch_name(c, t):
    name = c["pre"] + str(c["e"])
    fmt = "x" * len(c["pre"]) + "e" * len(str(c["e"]))
    require_close(FilenameToDate(fmt)(name + ".png"), float(c["e"]), "epoch in file name", 0, 0)
    t.nontrivial()

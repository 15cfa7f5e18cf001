"""C24: per-pixel statistics are the mathematical ones, and normalisation reaches its targets."""
import numpy as np
from hypothesis import strategies as st

from gen import fl, nice
from pbt import fail, require, require_close, sub

from correct_images import corrections
from correct_images.tools import memmap, numerical

SEED = st.integers(0, 2 ** 32 - 1)


@st.composite
def stack(draw, lo=2, hi=40):
    return {"n": draw(st.integers(lo, hi)), "h": draw(st.integers(2, 5)), "w": draw(st.integers(2, 5)),
            "c": draw(st.sampled_from([1, 3])), "seed": draw(SEED),
            "level": draw(st.sampled_from([0.05, 0.3, 0.9])), "spread": draw(st.sampled_from([0.0, 0.01, 0.2])),
            "bright": draw(st.sampled_from([0, 0, 0.1, 0.5]))}


def images(c):
    rng = np.random.default_rng(c["seed"])
    shape = (c["n"], c["h"], c["w"]) + ((c["c"],) if c["c"] > 1 else ())
    base = rng.uniform(0.2, 1, shape[1:]) * c["level"]
    x = np.clip(base + rng.normal(0, 1, shape) * c["spread"] * c["level"], 0.001, 0.94)
    return x.astype(np.float32), rng


@sub("C24", "running", stack(), quick=500, thorough=20000, shards=4, max_s=25,
     rule="the images differ from each other")
def running(c, t):
    x, rng = images(c)
    if c["bright"]:
        hot = rng.uniform(0, 1, x.shape) < c["bright"]
        x[hot] = rng.uniform(0.96, 3, hot.sum())
    r = numerical.RunningMeanStd([c["h"], c["w"], c["c"]])
    require(r.mean is None and r.std is None, "statistics of no image")
    # saturated values (above 0.95) are replaced by the mean so far
    m = np.zeros(x.shape[1:])
    seen = []
    for i, im in enumerate(x):
        r.compute(im.copy())
        v = np.where(im > 0.95, m, im.astype(float))
        seen.append(v)
        m = m + (v - m) / (i + 1)
    seen = np.array(seen)
    require_close(r.mean, np.squeeze(seen.mean(0)), "running mean of %d images" % c["n"], 1e-4, 1e-5)
    require_close(r.std, np.maximum(np.squeeze(seen.std(0)), 1e-6), "running std of %d images" % c["n"],
                  1e-3, 1e-4)
    require(bool(np.all(np.asarray(r.std) >= 1e-6 * 0.99)), "a standard deviation is not positive")
    t.nontrivial(c["spread"] > 0, "saturated pixels" if c["bright"] else "no saturated pixel")


@sub("C24", "from_files", stack(1, 25), quick=300, thorough=10000, shards=4, max_s=25,
     rule="more than one image and the images differ")
def from_files(c, t):
    x, rng = images(c)
    files = {"f%03d" % i: im for i, im in enumerate(x)}
    names = list(files)
    mean, std = numerical.running_mean_std(names, lambda p: files[p].copy())
    require_close(mean, x.astype(float).mean(0), "mean over files", 1e-4, 1e-5)
    require_close(std, x.astype(float).std(0) if c["n"] > 1 else np.zeros(x.shape[1:]), "std over files",
                  1e-3, 1e-4)
    # missing data (zeros) do not count, wherever they are
    z = (x if x.ndim == 3 else x[..., 0]) * np.float32(10)
    holes = rng.uniform(0, 1, z.shape) < rng.choice([0, 0.1, 0.4, 0.9])
    z[holes] = 0
    maps = {"d%03d" % i: im for i, im in enumerate(z)}
    mean, std = numerical.running_mean_std(list(maps), loader=lambda p, w, h: maps[p].copy(),
                                           width=c["w"], height=c["h"], ignore_zeroes=True)
    k = np.maximum((~holes).sum(0), 1)
    want = z.astype(float).sum(0) / k
    require_close(mean, want, "mean that ignores zeros", 1e-4, 1e-5)
    require_close(std, np.sqrt((np.where(holes, 0, z - want) ** 2).sum(0) / k), "std that ignores zeros", 1e-3, 1e-4)
    t.nontrivial(c["n"] > 1 and c["spread"] > 0, "missing data" if holes.any() else "no missing data")


@sub("C24", "stack_statistics", stack(10, 45), quick=250, thorough=8000, shards=4, max_s=30,
     rule="the images differ from each other")
def stack_statistics(c, t):
    x, rng = images(c)
    d = t.scratch()
    files = {"f%03d" % i: im for i, im in enumerate(x)}
    names = list(files)
    f, mm = memmap.create_memmap(names, [c["h"], c["w"], c["c"]], d / "mm", loader=lambda p: files[p])
    require(np.array_equal(np.asarray(mm).reshape(x.shape), x), "the memory map differs from the images")
    require([p for p in d.rglob("*") if p.is_file()] == [d / "mm" / f.split("/")[-1]],
            "memory map is not where it was requested")
    x64 = x.astype(float)
    require_close(np.asarray(numerical.median_array(mm)).reshape(x.shape[1:]), np.median(x64, 0),
                  "median", 1e-5, 1e-6)
    n = c["n"]
    srt = np.sort(x64, 0)[int(n * 0.1):int(n * 0.9)]
    tm, ts = numerical.image_mean_std_trimmed(mm)
    require_close(np.asarray(tm).reshape(x.shape[1:]), srt.mean(0), "trimmed mean", 1e-4, 1e-5)
    require_close(np.asarray(ts).reshape(x.shape[1:]), srt.std(0), "trimmed std", 1e-3, 1e-5)
    if c["c"] == 1:
        m, s = numerical.mean_std(x)
        require_close(np.asarray(m).reshape(x.shape[1:]), x64.mean(0), "mean", 1e-4, 1e-5)
        require_close(np.asarray(s).reshape(x.shape[1:]), x64.std(0), "std", 1e-3, 1e-5)
    del mm
    t.nontrivial(c["spread"] > 0, "colour" if c["c"] == 3 else "grey")


@st.composite
def norm_case(draw):
    c = draw(stack(3, 30))
    c["mean"] = draw(nice(5, 90, 1))
    c["std"] = draw(nice(0.5, 20, 1))
    return c


@sub("C24", "normalisation", norm_case(), quick=500, thorough=20000, shards=4, max_s=20,
     rule="the images differ and no corrected value is clipped")
def normalisation(c, t):
    x, rng = images(c)
    x = x.astype(float)
    m, s = x.mean(0), np.maximum(x.std(0), 1e-6)
    keep = x.copy()
    out = np.array([corrections.pixel_stat(im, m, s, c["mean"], c["std"]) for im in x])
    require(np.array_equal(x, keep), "the input image was changed")
    require(out.min() >= 0 and out.max() <= 1, "normalised values leave [0, 1]: %r %r" % (
        out.min(), out.max()))
    want = (x - m) / s * c["std"] / 100 + c["mean"] / 100
    require_close(out, np.clip(want, 0, 1), "normalised values", 1e-9, 1e-9)
    inside = (want > 0).all() and (want < 1).all()
    if inside and c["spread"] > 0:
        require_close(out.mean(0), np.full(m.shape, c["mean"] / 100), "mean of the normalised images",
                      1e-6, 1e-6)
        if x.std(0).min() > 1e-4:
            require_close(out.std(0), np.full(m.shape, c["std"] / 100),
                          "standard deviation of the normalised images", 1e-6, 1e-6)
        t.nontrivial(True, "unclipped")
    else:
        t.label("clipped or constant")

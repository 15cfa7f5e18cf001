"""C25: the attenuation model is fitted per pixel and removes the dependence on altitude."""
import warnings

import joblib
import matplotlib
import numpy as np
from hypothesis import strategies as st

from gen import fl, nice
from pbt import fail, require, require_close, sub

from correct_images import corrections
from correct_images.tools import curve_fitting as cf

SEED = st.integers(0, 2 ** 32 - 1)


def curve(p, x):
    return p[0] * np.exp(p[1] * x) + p[2]


@st.composite
def fit_case(draw):
    n = draw(st.integers(3, 25))
    return {"a": draw(nice(0.1, 2, 2)), "b": draw(nice(-0.8, -0.05, 2)), "c": draw(nice(0.0, 0.2, 2)),
            "lo": draw(nice(1, 5, 1)), "step": draw(st.sampled_from([0.1, 0.25, 0.5])), "n": n,
            "noise": draw(st.sampled_from([0, 0, 0, 0.02, 0.2])), "seed": draw(SEED),
            "order": draw(st.booleans()),
            "junk": draw(st.lists(st.tuples(
                st.integers(0, n), st.sampled_from(["nan_alt", "nan_int", "inf", "zero_alt", "neg_alt",
                                                    "zero_int", "neg_int"])), max_size=5)),
            "only_junk": draw(st.integers(0, 12)) == 0}


def data(c):
    rng = np.random.default_rng(c["seed"])
    x = c["lo"] + c["step"] * np.arange(c["n"])
    y = curve((c["a"], c["b"], c["c"]), x) * (1 + c["noise"] * rng.uniform(-1, 1, c["n"]))
    if c["order"]:
        k = rng.permutation(c["n"])
        x, y = x[k], y[k]
    return x, y, rng


def fit(x, y):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.asarray(cf.curve_fitting(np.asarray(x), np.asarray(y), 20, 20, None), float)


@sub("C25", "fit", fit_case(), quick=400, thorough=12000, shards=8, max_s=30,
     rule="the samples follow the model without noise, or unusable samples are mixed in")
def fit_check(c, t):
    x, y, rng = data(c)
    p = fit(x, y)
    require(p.shape == (3,) and bool(np.all(np.isfinite(p))), "parameters %s" % p)
    require(p[0] >= 1e-7 and p[1] <= 1e-9 and -1e-9 <= p[2] <= y.min() + 1e-7,
            "parameters %s outside their physical bounds" % p)
    if c["noise"] == 0:
        err = np.abs(curve(p, x) - y).max()
        require(err < 0.02 * np.ptp(y) + 1e-3, lambda: "exact samples of %s are fitted by %s, error %g" % (
            (c["a"], c["b"], c["c"]), p, err))
        t.nontrivial(True, "exact samples")
    else:
        # noise of 2 % (or 20 %) of the intensity moves the fit by a similar amount
        r = np.sqrt(np.mean((curve(p, x) - y) ** 2))
        require(r <= (2.5 * c["noise"] + 0.02) * y.max() + 1e-3,
                "noise of %g moves the fit by %g of %g" % (c["noise"], r, y.max()))
        t.label("noisy samples")
    if c["junk"]:
        xs, ys = list(x), list(y)
        for i, kind in sorted(c["junk"], reverse=True):
            a, b = rng.uniform(1, 9), rng.uniform(0.01, 0.9)
            if kind == "nan_alt":
                a = float("nan")
            elif kind == "nan_int":
                b = float("nan")
            elif kind == "inf":
                b = float("inf")
            elif kind == "zero_alt":
                a = 0.0
            elif kind == "neg_alt":
                a = -a
            elif kind == "zero_int":
                b = 0.0
            else:
                b = -b
            xs.insert(i, a)
            ys.insert(i, b)
            t.label(kind)
        q = fit(xs, ys)
        require_close(q, p, "unusable samples %s change the fit" % c["junk"], 1e-6, 1e-9)
        t.nontrivial(True, "unusable samples")
        if c["only_junk"]:
            bad = [(a, b) for a, b in zip(xs, ys)
                   if not (np.isfinite(a) and np.isfinite(b) and a > 0 and b > 0)]
            q = fit([a for a, _ in bad], [b for _, b in bad])
            require_close(q, [1, 0, 0], "no usable sample: parameters", 0, 0)
            t.label("no usable sample")


# --------------------------------------------------------------------------------- correction
@st.composite
def corr_case(draw):
    return {"h": draw(st.integers(1, 5)), "w": draw(st.integers(1, 6)), "c": draw(st.sampled_from([1, 3])),
            "seed": draw(SEED), "target": draw(nice(1, 10, 1)), "flat": draw(st.booleans())}


@sub("C25", "correct", corr_case(), quick=600, thorough=20000, shards=4, max_s=20,
     rule="the altitude differs from the target altitude")
def correct(c, t):
    rng = np.random.default_rng(c["seed"])
    h, w, ch = c["h"], c["w"], c["c"]
    p = np.empty((ch, h, w, 3), np.float32)
    p[..., 0] = rng.uniform(0.2, 1.5, (ch, h, w))
    p[..., 1] = rng.uniform(-0.6, 0, (ch, h, w))
    p[..., 2] = rng.uniform(0.01, 0.2, (ch, h, w))
    g = corrections.calculate_correction_gains(c["target"], p, h, w, ch)
    p64 = p.astype(float)
    gain = p64[..., 0] * np.exp(p64[..., 1] * c["target"]) + p64[..., 2]
    require_close(g, gain, "correction gains at the target altitude", 1e-4, 1e-6)
    refl = rng.uniform(0.2, 1.2, (h, w, ch))
    dist = np.full((h, w), rng.uniform(0.5, 12)) if c["flat"] else rng.uniform(0.5, 12, (h, w))
    model = p64[..., 0] * np.exp(p64[..., 1] * dist) + p64[..., 2]
    img = (refl * np.moveaxis(model, 0, -1)).astype(np.float32)
    want = refl * np.moveaxis(gain, 0, -1)
    if ch == 1:
        img, want = img[..., 0], want[..., 0]
    keep, kd = img.copy(), dist.copy()
    out = corrections.attenuation_correct(img, dist, p, g)
    require(np.array_equal(img, keep) and np.array_equal(dist, kd), "the inputs were changed")
    require_close(out, want, "scene seen at %s m corrected to %s m" % (dist.ravel()[:3], c["target"]),
                  2e-4, 1e-6)
    t.nontrivial(bool(np.abs(dist - c["target"]).max() > 0.1), "colour" if ch == 3 else "grey")
    t.label("depth map", not c["flat"])


@st.composite
def layout_case(draw):
    return {"h": draw(st.integers(1, 4)), "w": draw(st.integers(1, 5)), "c": draw(st.sampled_from([1, 3])),
            "seed": draw(SEED), "n": draw(st.integers(4, 9))}


@sub("C25", "layout", layout_case(), quick=24, thorough=300, shards=8, max_s=30,
     rule="more than one pixel, all with different curves")
def layout(c, t):
    """the parameters of pixel (row, column, channel) are those fitted to its own samples"""
    import matplotlib.pyplot as plt

    rng = np.random.default_rng(c["seed"])
    h, w, ch, n = c["h"], c["w"], c["c"], c["n"]
    dist = np.sort(rng.uniform(2, 9, (n, 1)), 0) + rng.uniform(0, 0.2, (1, h * w))
    par = np.stack([rng.uniform(0.3, 2, (ch, h * w)), rng.uniform(-0.6, -0.1, (ch, h * w)),
                    rng.uniform(0.0, 0.1, (ch, h * w))], -1)
    imgs = np.stack([par[k, :, 0] * np.exp(par[k, :, 1] * dist) + par[k, :, 2] for k in range(ch)], -1)
    real = plt.savefig
    plt.savefig = lambda *a, **k: None
    try:
        with joblib.parallel_backend("sequential"):
            got = corrections.calculate_attenuation_parameters(imgs, dist, h, w, ch, t.scratch())
    finally:
        plt.savefig = real
        plt.close("all")
    require(got.shape == (ch, h, w, 3), "shape %s" % (got.shape,))
    for k in range(ch):
        for y in range(h):
            for x in range(w):
                i = y * w + x
                xs, ys = dist[:, i], imgs[:, i, k]
                err = np.abs(curve(got[k, y, x], xs) - ys).max()
                require(err < 0.05 * np.ptp(ys) + 2e-3,
                        lambda: "pixel row %d column %d channel %d: fitted curve misses its samples by %g" % (
                            y, x, k, err))
    t.nontrivial(h * w > 1, "%d channel(s)" % ch)

"""C23: pixels are loaded, debayered, balanced, gamma corrected and written without distortion."""
import sys

from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from gen import fl, nice
from pbt import fail, require, require_close, sub

import correct_images.tools.file_handlers as fh
from correct_images import corrections
from correct_images.loaders import depth_map, loader, xviii

SEED = st.integers(0, 2 ** 32 - 1)


# ---------------------------------------------------------------------------------------- loaders
@st.composite
def load_case(draw):
    kind = draw(st.sampled_from(["png8", "png16", "tif8", "tif16", "rgb8", "xviii", "xviii", "depth"]))
    return {"kind": kind, "h": draw(st.integers(4, 12)), "w": 4 * draw(st.integers(1, 4)),
            "bits": draw(st.sampled_from([8, 10, 12, 14, 16, 18])), "seed": draw(SEED),
            "full": draw(st.integers(0, 30)) == 0}


def pack_xviii(px):
    """pixels -> bytes: 24-bit big-endian values, byte order reversed within each 32-bit word"""
    p = np.asarray(px, dtype=np.uint32).ravel()
    s = np.empty(p.size * 3, dtype=np.uint8)
    s[0::3], s[1::3], s[2::3] = (p >> 16) & 255, (p >> 8) & 255, p & 255
    return np.ascontiguousarray(s.reshape(-1, 4)[:, ::-1]).ravel()


@sub("C23", "loaders", load_case(), quick=500, thorough=20000, shards=4, max_s=25,
     rule="the image is not constant")
def loaders(c, t):
    import imageio.v2 as iio

    d = t.scratch()
    rng = np.random.default_rng(c["seed"])
    shape = (c["h"], c["w"])
    kind = c["kind"]
    ld = loader.Loader()
    if kind == "depth":
        a = rng.uniform(0, 20, shape).astype(np.float32)
        np.save(d / "x_depthmap.npy", a)
        got = depth_map.loader(d / "x_depthmap.npy", c["w"], c["h"])
        require(np.array_equal(got, a), "depth map is not loaded as stored")
        return t.nontrivial(True, kind)
    if kind == "xviii":
        if c["full"]:
            shape = (1024, 1280)
        px = rng.integers(0, 2 ** 18, shape)
        raw = pack_xviii(px)
        if c["full"]:
            (d / "a.raw").write_bytes(raw.tobytes())
            ld.set_loader("xviii")
            ld.bit_depth = 18
            got = ld(d / "a.raw")
            require(np.array_equal(got, (px / 2.0 ** 18).astype(np.float32)),
                    "raw image file: pixels differ")
            t.label("full size file")
        else:
            got = xviii.load_xviii_bayer_from_binary(raw, shape[0], shape[1])
            require(np.array_equal(got, px), lambda: "18-bit raw image: got %s, expected %s" % (got, px))
        return t.nontrivial(True, kind)
    box = 8 if kind.endswith("8") else 16
    bits = min(c["bits"], box)
    if kind == "rgb8":
        shape += (3,)
    px = rng.integers(0, 2 ** box, shape).astype(np.uint8 if box == 8 else np.uint16)
    f = d / ("a.tif" if kind.startswith("tif") else "a.png")
    iio.imwrite(f, px)
    ld.set_loader("default")
    ld.bit_depth = bits
    got = ld(f)
    want = (px.astype(np.int64) >> (box - bits)) / 2.0 ** bits
    require(got.shape == want.shape, "shape %s, expected %s" % (got.shape, want.shape))
    require(np.array_equal(np.asarray(got, float), want),
            lambda: "%d-bit data in a %d-bit file: got %s, expected %s" % (bits, box, got, want))
    t.nontrivial(True, "%s %d bit" % (kind, bits))


# ---------------------------------------------------------------------------------------- debayer
PAT = {"rggb": ("RG", "GB"), "grbg": ("GR", "BG"), "bggr": ("BG", "GR"), "gbrg": ("GB", "RG")}


@st.composite
def bayer_case(draw):
    return {"pattern": draw(st.sampled_from(sorted(PAT) + [p.upper() for p in sorted(PAT)])),
            "h": 2 * draw(st.integers(3, 8)), "w": 2 * draw(st.integers(3, 8)),
            "rgb": [draw(nice(-0.2, 1.2, 3)) for _ in range(3)], "seed": draw(SEED),
            "kind": draw(st.sampled_from(["flat", "noise", "noise", "bad"]))}


def sites(p, h, w):
    rows = PAT[p.lower()]
    return np.array([["RGB".index(rows[i % 2][j % 2]) for j in range(w)] for i in range(h)])


@sub("C23", "debayer", bayer_case(), quick=600, thorough=20000, shards=4, max_s=20,
     rule="the three colours differ, or the mosaic is random")
def debayer(c, t):
    h, w = c["h"], c["w"]
    s = sites(c["pattern"], h, w)
    if c["kind"] == "bad":
        try:
            corrections.debayer(np.zeros((h, w), np.float32), c["pattern"][:2] + "xx")
        except SystemExit:
            require(corrections.debayer(None, c["pattern"]) is None, "debayer(None)")
            return t.label("unknown pattern refused")
        fail("an unknown bayer pattern was accepted")
    if c["kind"] == "flat":
        m = np.array(c["rgb"])[s]
    else:
        m = np.random.default_rng(c["seed"]).uniform(0, 1, (h, w))
    m = m.astype(np.float32)
    keep = m.copy()
    out = corrections.debayer(m, c["pattern"])
    require(np.array_equal(m, keep), "the input image was changed")
    require(out.shape == (h, w, 3), "shape %s" % (out.shape,))
    require(float(out.min()) >= 0 and float(out.max()) <= 1, "values leave [0, 1]")
    clip = np.clip(m, 0, 1)
    i, j = np.mgrid[2:h - 2, 2:w - 2]
    require_close(out[i, j, s[i, j]], clip[i, j], "%s: the measured colour of a pixel" % c["pattern"],
                  0, 1e-4)
    if c["kind"] == "flat":
        for ch in range(3):
            require_close(out[2:-2, 2:-2, ch], np.full((h - 4, w - 4), np.clip(np.float32(c["rgb"][ch]),
                                                                               0, 1)),
                          "%s: channel %d of a uniformly coloured scene" % (c["pattern"], ch), 0, 1e-4)
        t.nontrivial(len(set(np.clip(c["rgb"], 0, 1))) == 3, "uniform scene")
    else:
        # missing colours come from the neighbours
        for ch in range(3):
            for a in range(2, h - 2):
                for b in range(2, w - 2):
                    if s[a, b] != ch:
                        nb = clip[a - 2:a + 3, b - 2:b + 3][s[a - 2:a + 3, b - 2:b + 3] == ch]
                        if not nb.min() - 1e-3 <= out[a, b, ch] <= nb.max() + 1e-3:
                            fail("%s: channel %d at (%d,%d) is %r, neighbours %s" % (
                                c["pattern"], ch, a, b, out[a, b, ch], nb))
        t.nontrivial(True, "random mosaic")


# ---------------------------------------------------------------------------------- balance, gamma
@st.composite
def balance_case(draw):
    col = draw(st.booleans())
    return {"h": draw(st.integers(1, 6)), "w": draw(st.integers(1, 6)), "col": col,
            "g": [[draw(nice(-2, 3, 2)) for _ in range(3)] for _ in range(3)] if col or draw(st.booleans())
            else [[draw(nice(0, 3, 2))]],
            "s": [draw(nice(-1, 1, 2)) for _ in range(3)], "seed": draw(SEED),
            "f32": draw(st.booleans())}


@sub("C23", "manual_balance", balance_case(), quick=500, thorough=20000, shards=2, max_s=15,
     rule="gains or offsets are not neutral")
def balance(c, t):
    shape = (c["h"], c["w"]) + ((3,) if c["col"] else ())
    img = np.random.default_rng(c["seed"]).uniform(0, 1, shape)
    img = img.astype(np.float32 if c["f32"] else np.float64)
    keep = img.copy()
    g = np.array(c["g"])
    s = np.array(c["s"][:len(g)])
    out = corrections.manual_balance(img, g, s)
    require(np.array_equal(img, keep), "the input image was changed")
    x = keep.astype(float)
    if c["col"]:
        want = np.einsum("ab,ijb->ija", g, x - s)
    else:
        want = (x - s[0]) * g[0, 0]
    require_close(out, want, "manual balance", 1e-5, 1e-5)
    t.nontrivial(bool(np.any(s)) or not np.array_equal(g, np.eye(len(g))), "rgb" if c["col"] else "grey")


@st.composite
def gamma_case(draw):
    return {"shape": draw(st.sampled_from([(3, 4), (2, 5, 3), (1, 1)])), "seed": draw(SEED),
            "hi": draw(st.sampled_from([0.001, 0.0031, 0.0032, 0.01, 0.5, 1.0]))}


@sub("C23", "gamma", gamma_case(), quick=400, thorough=10000, shards=2, max_s=15,
     rule="the image has a value that is not zero")
def gamma(c, t):
    img = np.random.default_rng(c["seed"]).uniform(0, c["hi"], c["shape"])
    keep = img.copy()
    out = np.asarray(corrections.gamma_correct(img))
    require(np.array_equal(img, keep), "the input image was changed")
    if keep.max() < 0.0031308:
        want = 12.92 * keep
        t.label("dark image")
    else:
        want = 1.055 * keep ** (1 / 1.5) - 0.055
        t.label("normal image")
    require_close(out, want, "gamma of %s" % (keep.ravel()[:4],), 1e-6, 1e-7)
    order = np.argsort(keep.ravel())
    require(bool(np.all(np.diff(out.ravel()[order]) >= 0)), "gamma correction reverses brightness order")
    require_close(corrections.gamma_correct(np.ones((2, 2))), np.ones((2, 2)), "gamma of white")
    t.nontrivial(True)


# ------------------------------------------------------------------------------------------ output
@st.composite
def out_case(draw):
    return {"h": draw(st.integers(4, 9)), "w": draw(st.integers(4, 9)), "col": draw(st.booleans()),
            "fmt": draw(st.sampled_from(["png", "tif", "bmp"])), "seed": draw(SEED),
            "faults": draw(st.integers(0, 4)),
            "name": draw(st.sampled_from(["a", "PR_20180811_153729_762_RC16", "img.v2", "00123"]))}


@sub("C23", "output", out_case(), quick=300, thorough=8000, shards=4, max_s=20,
     rule="the image is not constant; the label says whether the first writes fail")
def output(c, t):
    import imageio.v2 as iio

    d = t.scratch()
    px = np.random.default_rng(c["seed"]).integers(
        0, 256, (c["h"], c["w"]) + ((3,) if c["col"] else ())).astype(np.uint8)
    left = [c["faults"]]
    full = c["seed"] % 2 == 0  # the disk is full for a while, or a file cannot be read for a while
    key = "imwrite" if full else "imread"
    real = getattr(fh, key, None)

    def flaky(p, *a, **k):
        if left[0] > 0:
            left[0] -= 1
            if not full:
                raise OSError("injected: the file cannot be read back")
            Path(p).write_bytes(b"PNG"[:left[0]])
            return
        return real(p, *a, **k)

    if real:
        setattr(fh, key, flaky)
    try:
        f = fh.write_output_image(px.copy(), c["name"], d, c["fmt"])
    finally:
        if real:
            setattr(fh, key, real)
    require(str(f) == str(d / (c["name"] + "." + c["fmt"])), "written to %s" % f)
    got = iio.imread(d / (c["name"] + "." + c["fmt"]))
    require(np.array_equal(got, px), "the written image differs from the corrected image")
    require(len(list(d.iterdir())) == 1, "unexpected files %s" % list(d.iterdir()))
    t.nontrivial(True, "after %d failed attempts" % c["faults"] if c["faults"] else "at once")

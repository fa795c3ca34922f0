"""What the image commands have to produce, computed independently."""
import functools
import hashlib
import io
import json
import random
from decimal import Decimal
from fractions import Fraction
from math import floor

from PIL import Image

DEFAULTS = {"pre_top_crop": 0, "pre_left_crop": 0, "pre_right_crop": 0, "pre_bottom_crop": 0, "crop_left_percentage": 0.5, "crop_top_percentage": 0.5}


@functools.lru_cache(maxsize=4096)
def _picture(w, h, mode, fmt, seed, style):
    rng = random.Random(f"{w} {h} {mode} {seed} {style}")
    bands = len(mode)
    if style == 0:  # noise
        data = bytes(rng.randrange(256) for _ in range(w * h * bands))
    elif style == 1:  # every pixel tells where it is
        data = bytes((x * 5 + 31 * b if b % 2 == 0 else y * 7 + seed * 13) % 256 for y in range(h) for x in range(w) for b in range(bands))
    elif style == 2:  # flat areas
        cols = [bytes(rng.randrange(256) for _ in range(bands)) for _ in range(4)]
        data = b"".join(cols[(x * 2 // max(1, w)) % 2 + 2 * ((y * 2 // max(1, h)) % 2)] for y in range(h) for x in range(w))
    else:
        data = bytes(rng.randrange(256) for _ in range(bands)) * (w * h)
    out = io.BytesIO()
    Image.frombytes(mode, (w, h), data).save(out, fmt)
    return out.getvalue()


def picture(spec):
    """The bytes of an image file: {w, h, mode, fmt, seed, style}."""
    return _picture(spec["w"], spec["h"], spec["mode"], spec["fmt"], spec["seed"], spec["style"])


@functools.lru_cache(maxsize=512)
def opened(data):
    im = Image.open(io.BytesIO(data))
    im.load()
    return im


def sizes(settings, sw, sh, w, h):
    """The sizes to produce, ascending."""
    step = Fraction(Decimal(settings["resolution_step"]))
    res, r = [], Fraction(1)
    while w * r <= sw and h * r <= sh and r <= settings["maximum_resolution"]:
        size = (floor(w * r), floor(h * r))
        if size not in res:
            res.append(size)
        r += step
    return res


def boxes(sw, sh, w, h, crop):
    """All crops of the source that are right: the statement leaves up to a
    pixel to rounding.  The one that the rounding of the docs gives is first."""
    c = dict(DEFAULTS, **crop)
    x0, y0 = c["pre_left_crop"], c["pre_top_crop"]
    pw, ph = sw - x0 - c["pre_right_crop"], sh - y0 - c["pre_bottom_crop"]
    if pw <= 0 or ph <= 0:
        return []

    def near(v, most):
        return sorted({n for n in (floor(v) - 1, floor(v), floor(v) + 1) if abs(n - v) < 1 and 0 <= n <= most}, key=lambda n: (abs(n - v), n % 2))

    res = []
    if pw * h == w * ph:
        return [(x0, y0, pw, ph)]
    if pw * h > w * ph:
        for cw in near(Fraction(w * ph, h), pw):
            for x in near((pw - cw) * Fraction(c["crop_left_percentage"]), pw - cw):
                res.append((x0 + x, y0, cw, ph))
    else:
        for ch in near(Fraction(h * pw, w), ph):
            for y in near((ph - ch) * Fraction(c["crop_top_percentage"]), ph - ch):
                res.append((x0, y0 + y, pw, ch))
    return [b for b in res if b[2] > 0 and b[3] > 0]


@functools.lru_cache(maxsize=20000)
def _encoded(data, box, w, h, fmt, kwargs):
    im = opened(data)
    x, y, bw, bh = box
    if box != (0, 0, im.width, im.height):
        im = im.crop((x, y, x + bw, y + bh))
    if (im.width, im.height) != (w, h):
        im = im.resize((w, h), Image.Resampling.LANCZOS)
    out = io.BytesIO()
    im.save(out, fmt, **json.loads(kwargs))
    return out.getvalue()


def applies(export, w, h):
    lo, hi = export["min_area_px2"], export["max_area_px2"]
    return (lo is None or w * h >= lo) and (hi is None or w * h <= hi)


def choose(data, box, w, h, fmt, f):
    """(choice, bytes) for one size in one format, or None."""
    best = None
    for name, e in f["exports"].items():
        if not applies(e, w, h):
            continue
        b = _encoded(data, box, w, h, fmt, json.dumps(e["formatter_kwargs"], sort_keys=True))
        score = Fraction(max(len(b), f["minimum_unit_size_bytes"]), e["preference"])
        if best is None or score < best[0]:
            best = (score, name, b)
    return best and best[1:]


def expected(settings, data, w, h, crop):
    """{format: [((w, h), [(choice, bytes), ...])]}: for each size the files
    that are right, one for each acceptable rounding; formats without any
    applicable export are left out."""
    im = opened(data)
    res = {}
    for size in sizes(settings, im.width, im.height, w, h):
        bs = boxes(im.width, im.height, *size, crop)
        for fmt, f in settings["formats"].items():
            if not any(applies(e, *size) for e in f["exports"].values()):
                continue
            res.setdefault(fmt, []).append((size, _Lazy(data, bs, size, fmt, f)))
    return res


class _Lazy:
    """Encodes the acceptable variants one after the other, as needed."""

    def __init__(self, *a):
        self.a = a

    def __iter__(self):
        data, bs, (w, h), fmt, f = self.a
        for b in bs:
            yield choose(data, b, w, h, fmt, f)


def wrong(variants, got, choice=None):
    """None when the bytes (and the choice, if given) are acceptable."""
    first = None
    for c, b in variants:
        if first is None:
            first = (c, b)
        if b == got and choice in (None, c):
            return None
    try:
        im = Image.open(io.BytesIO(got))
        what = f"{im.format} of {im.size}"
    except Exception as e:
        what = f"{type(e).__name__}"
    return f"is {what} with {len(got)} bytes ({hashlib.sha256(got).hexdigest()[:8]}), choice {choice}; expected {first and (first[0], len(first[1]), hashlib.sha256(first[1]).hexdigest()[:8])}"

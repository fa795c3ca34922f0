"""C18: geometry of the cover-fit crop and of the generated resolutions."""
import types
from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st

from vanillaplusjs.build.html.manips.images.cover_fit import cover_fit
from vanillaplusjs.build.html.manips.images.resolutions import yield_resolutions, yield_sizes
from vanillaplusjs.build.html.manips.images.settings import load_image_settings
from vp import site
from vp.core import Check, Prop, Violation

PCT = st.one_of(st.sampled_from([0, 0.0, 0.5, 1, 1.0, 0.25, 0.1, 0.3333, 0.999]), st.floats(0, 1), st.integers(0, 1000).map(lambda n: n / 1000))


@st.composite
def fits(draw):
    big = st.one_of(st.integers(1, 40), st.integers(1, 400), st.integers(1, 20000))
    w, h = draw(big), draw(big)
    case = {"w": w, "h": h, "pcts": [draw(PCT), draw(PCT)], "kw": draw(st.booleans())}
    k = draw(st.integers(0, 9))
    if k <= 3:
        pre = [0, 0, 0, 0]
    else:
        small = st.one_of(st.just(0), st.integers(0, 5), st.integers(0, 300))
        pre = [draw(small) for _ in range(4)]  # top, left, bottom, right
    case["pre"] = pre
    pw, ph = w - pre[1] - pre[3], h - pre[0] - pre[2]
    m = draw(st.integers(0, 9))
    if pw < 1 or ph < 1 or m == 0:
        case["dw"], case["dh"] = draw(big), draw(big)
    elif m <= 2:
        # the same ratio, or nearly so
        f = draw(st.integers(1, 12))
        case["dw"] = max(1, min(pw, pw // f + draw(st.integers(-1, 1))))
        case["dh"] = max(1, min(ph, ph // f + draw(st.integers(-1, 1))))
    else:
        case["dw"], case["dh"] = draw(st.integers(1, pw)), draw(st.integers(1, ph))
    return case


def run_fit(case, ctx):
    w, h, dw, dh = case["w"], case["h"], case["dw"], case["dh"]
    pt, pl, pb, pr = case["pre"]
    cl, ct = case["pcts"]
    pw, ph = w - pl - pr, h - pt - pb
    kw = dict(crop_left_percentage=cl, crop_top_percentage=ct)
    if any(case["pre"]) or case["kw"]:
        kw.update(pre_top_crop=pt, pre_left_crop=pl, pre_bottom_crop=pb, pre_right_crop=pr)
    try:
        x, y, cw, ch = cover_fit(w, h, dw, dh, **kw)
    except ValueError:
        if pw >= dw and ph >= dh:
            raise Violation(f"rejected although the source suffices: {case}")
        ctx.label("rejected")
        return
    if pw <= 0 or ph <= 0:
        raise Violation(f"nothing is left of the source, but got {(x, y, cw, ch)}: {case}")
    if pw < dw or ph < dh:
        ctx.label("too-small")
        return
    got = (x, y, cw, ch)
    if not all(isinstance(v, int) for v in got):
        raise Violation(f"not whole pixels {got}: {case}")
    if x < pl or y < pt or x + cw > w - pr or y + ch > h - pb:
        raise Violation(f"crop {got} leaves the pre-cropped source: {case}")
    if cw != pw and ch != ph:
        raise Violation(f"crop {got} is full in no dimension: {case}")
    if cw < dw or ch < dh:
        raise Violation(f"crop {got} is smaller than the target: {case}")
    # the ratio, to within a pixel of the dimension that was cut
    want_w, want_h = Fraction(dw * ph, dh), Fraction(dh * pw, dw)
    ok = (ch == ph and abs(cw - want_w) <= 1) or (cw == pw and abs(ch - want_h) <= 1)
    if not ok:
        raise Violation(f"crop {got} has another ratio than the target: {case}")
    for name, at, excess, pct in (("left", x - pl, pw - cw, cl), ("top", y - pt, ph - ch, ct)):
        if abs(Fraction(at) - excess * Fraction(pct)) >= 1:
            raise Violation(f"crop {got} takes {at} of {excess} from the {name} instead of {pct}: {case}")
    if pw * dh == ph * dw and (cw, ch) != (pw, ph):
        raise Violation(f"same ratio, but cropped to {got}: {case}")
    ctx.label("wider" if pw > cw else "taller" if ph > ch else "same")
    if any(case["pre"]):
        ctx.label("pre-crop")
    if cw < pw or ch < ph:
        ctx.nontrivial()


@st.composite
def steps(draw):
    sw, sh = draw(st.integers(1, 3000)), draw(st.integers(1, 3000))
    return {"sw": sw, "sh": sh, "dw": draw(st.one_of(st.integers(1, 6), st.integers(1, sw), st.integers(1, max(1, sw // 3)), st.integers(1, 4000))),
            "dh": draw(st.one_of(st.integers(1, 6), st.integers(1, sh), st.integers(1, max(1, sh // 3)), st.integers(1, 4000))),
            "max": draw(st.integers(1, 9)),
            "step": draw(st.sampled_from(["0.5", "1", "0.25", "0.1", "0.3", "2", "1.5", "0.333", 1, 2, 0.5, 0.125, 3, "0.05"]))}


def run_steps(case, ctx):
    s = site.config()["images"]
    s["maximum_resolution"], s["resolution_step"] = case["max"], case["step"]
    c = types.SimpleNamespace(image_settings=load_image_settings(s))
    sw, sh, dw, dh = case["sw"], case["sh"], case["dw"], case["dh"]
    res = list(yield_resolutions(c, sw, sh, dw, dh))
    sizes = list(yield_sizes(c, sw, sh, dw, dh))
    want, want_sizes = [], []
    step = Fraction(Decimal(case["step"]))
    r = Fraction(1)
    while dw * r <= sw and dh * r <= sh and r <= case["max"]:
        want.append(r)
        if (int(dw * r), int(dh * r)) not in want_sizes:
            want_sizes.append((int(dw * r), int(dh * r)))
        r += step
    if [Fraction(x) for x in res] != want:
        raise Violation(f"resolutions {res} instead of {[str(x) for x in want]}: {case}")
    if [tuple(x) for x in sizes] != want_sizes:
        raise Violation(f"sizes {sizes} instead of {want_sizes}: {case}")
    ctx.label(f"n{min(len(want), 6)}")
    if len(want) >= 2:
        ctx.nontrivial()


CHECK = Check(
    "C18", [Prop("fit", lambda tier: fits(), run_fit, quick=40000, thorough=1500000),
            Prop("resolutions", lambda tier: steps(), run_steps, quick=10000, thorough=300000)],
    rule="cover_fit over random sizes (1..20000), pre-crops, percentages and near-equal ratios against the inequalities of the statement in exact arithmetic; "
         "yield_sizes against an exact enumeration; non-trivial: something is cut, or two or more resolutions",
    assumptions=["a target larger than the pre-cropped source is only required not to fail in another way than ValueError"])

#!/usr/bin/env python3
"""Writes spec/PaletteData.tla: CIEDE2000 differences of the Apple II colours.

An independent implementation (Sharma, Wu, Dalal 2005) of the perceptual
difference, on the palettes as BMP2DHR documents them.
"""
import math
import os

NAMES = ["BLACK", "MAGENTA", "DARK_BLUE", "VIOLET", "DARK_GREEN", "GREY1",
         "MED_BLUE", "LIGHT_BLUE", "BROWN", "ORANGE", "GREY2", "PINK",
         "GREEN", "YELLOW", "AQUA", "WHITE"]
RGB = {
    "NTSC": dict(
        BLACK=(0, 0, 0), MAGENTA=(148, 12, 125), BROWN=(99, 77, 0),
        ORANGE=(249, 86, 29), DARK_GREEN=(51, 111, 0), GREY1=(126, 126, 126),
        GREEN=(67, 200, 0), YELLOW=(221, 206, 23), DARK_BLUE=(32, 54, 212),
        VIOLET=(188, 55, 255), GREY2=(126, 126, 126), PINK=(255, 129, 236),
        MED_BLUE=(7, 168, 225), LIGHT_BLUE=(158, 172, 255),
        AQUA=(93, 248, 133), WHITE=(255, 255, 255)),
    "IIGS": dict(
        BLACK=(0, 0, 0), MAGENTA=(221, 0, 51), BROWN=(136, 85, 34),
        ORANGE=(255, 102, 0), DARK_GREEN=(0, 119, 0), GREY1=(85, 85, 85),
        GREEN=(0, 221, 0), YELLOW=(255, 255, 0), DARK_BLUE=(0, 0, 153),
        VIOLET=(221, 0, 221), GREY2=(170, 170, 170), PINK=(255, 153, 136),
        MED_BLUE=(34, 34, 255), LIGHT_BLUE=(102, 170, 255),
        AQUA=(0, 255, 153), WHITE=(255, 255, 255)),
}


def lab(rgb):
    def lin(c):
        c /= 255.
        return c / 12.92 if c <= 0.04045 else ((c + 0.055) / 1.055) ** 2.4
    r, g, b = map(lin, rgb)
    x = 0.4124564 * r + 0.3575761 * g + 0.1804375 * b
    y = 0.2126729 * r + 0.7151522 * g + 0.0721750 * b
    z = 0.0193339 * r + 0.1191920 * g + 0.9503041 * b

    def f(t):
        return t ** (1 / 3.) if t > 216 / 24389. else \
            (24389 / 27. * t + 16) / 116
    fx, fy, fz = f(x / 0.95047), f(y), f(z / 1.08883)
    return 116 * fy - 16, 500 * (fx - fy), 200 * (fy - fz)


def ciede2000(c1, c2):
    (l1, a1, b1), (l2, a2, b2) = c1, c2
    cb = (math.hypot(a1, b1) + math.hypot(a2, b2)) / 2
    g = .5 * (1 - math.sqrt(cb ** 7 / (cb ** 7 + 25. ** 7)))
    a1, a2 = a1 * (1 + g), a2 * (1 + g)
    cc1, cc2 = math.hypot(a1, b1), math.hypot(a2, b2)

    def hue(a, b):
        return math.degrees(math.atan2(b, a)) % 360 if a or b else 0.
    h1, h2 = hue(a1, b1), hue(a2, b2)
    dl, dc = l2 - l1, cc2 - cc1
    dh = 0 if cc1 * cc2 == 0 else (h2 - h1 + 180) % 360 - 180
    if cc1 * cc2 and h2 - h1 == 180:
        dh = 180
    dhh = 2 * math.sqrt(cc1 * cc2) * math.sin(math.radians(dh / 2))
    lm, cm = (l1 + l2) / 2, (cc1 + cc2) / 2
    if cc1 * cc2 == 0:
        hm = h1 + h2
    elif abs(h1 - h2) <= 180:
        hm = (h1 + h2) / 2
    elif h1 + h2 < 360:
        hm = (h1 + h2 + 360) / 2
    else:
        hm = (h1 + h2 - 360) / 2
    cos = lambda d: math.cos(math.radians(d))
    t = 1 - .17 * cos(hm - 30) + .24 * cos(2 * hm) + .32 * cos(3 * hm + 6) \
        - .2 * cos(4 * hm - 63)
    dt = 30 * math.exp(-((hm - 275) / 25) ** 2)
    rc = 2 * math.sqrt(cm ** 7 / (cm ** 7 + 25. ** 7))
    sl = 1 + .015 * (lm - 50) ** 2 / math.sqrt(20 + (lm - 50) ** 2)
    sc, sh = 1 + .045 * cm, 1 + .015 * cm * t
    rt = -math.sin(math.radians(2 * dt)) * rc
    return math.sqrt((dl / sl) ** 2 + (dc / sc) ** 2 + (dhh / sh) ** 2
                     + rt * dc / sc * dhh / sh)


def matrix(pal):
    labs = [lab(RGB[pal][n]) for n in NAMES]
    return [[ciede2000(a, b) for b in labs] for a in labs]


if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "spec", "PaletteData.tla"), "w") as f:
        f.write("---------------------------- MODULE PaletteData "
                "-----------------------------\n"
                "(* CIEDE2000 difference of any two Apple II colours, in "
                "hundredths, in each    *)\n(* palette; colours in the order"
                " of Picture!HNames.  Computed by              *)\n"
                "(* tools/palettes.py.                                      "
                "                  *)\n")
        for pal in ("NTSC", "IIGS"):
            rows = ["<<" + ", ".join("%d" % round(100 * v) for v in r) + ">>"
                    for r in matrix(pal)]
            f.write("%sDiff ==\n  <<%s>>\n" % (pal, ",\n    ".join(rows)))
        f.write("=" * 76 + "\n")

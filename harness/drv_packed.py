"""Replays histories of stores into the code's bitmaps.

VERIF_DATA: list of {dual, palette, fill (seed of the initial screen, or
null), ops}, an op being [aux, page, offset, value]; generated from
spec/Packed.tla.  Now and then the bitmap is compared with another one, the
way the encoder does.
"""

import json
import os
import random

import env


def limbs(v):
    v = int(v)
    return [v % 131072, v // 131072]


def main(t, args):
    with open(os.environ["VERIF_DATA"]) as f:
        histories = json.load(f)
    env.setup()
    with env.quiet():
        import screen
        import palette
        import numpy as np
        env.install_tables("zero")
    for h in histories:
        dual, r = h["dual"], random.Random(h["fill"])
        mems = [screen.MemoryMap(screen_page=1) for _ in (0, 1)]
        if h["fill"] is not None:
            for m in mems:
                for p in range(32):
                    for o in range(256):
                        m.page_offset[p, o] = r.choice(
                            [0, 255, r.randrange(256), r.randrange(256)])
        pal = palette.Palette[h["palette"]]
        bm = build(screen, pal, dual, mems)
        for p in range(32):
            t.emit("Page", p=p, dual=dual, main=mems[0].page_offset[p],
                   aux=mems[1].page_offset[p],
                   packed=[limbs(x) for x in bm.packed[p]])
        shadow = [m.page_offset.copy() for m in mems]
        packed = bm.packed.copy()
        for aux, p, o, v in h["ops"]:
            bm.apply(p, o, bool(aux), np.uint8(v))
            cells = []
            for b, m in enumerate(mems):
                for q, x in zip(*np.nonzero(m.page_offset != shadow[b])):
                    cells.append([b, int(q), int(x), int(m.page_offset[q, x])])
                shadow[b] = m.page_offset.copy()
            cols = [[int(q), int(c), *limbs(bm.packed[q, c])]
                    for q, c in zip(*np.nonzero(bm.packed != packed))]
            packed = bm.packed.copy()
            t.emit("Store", op=[aux, p, o, v], cells=cells, cols=cols)
            if r.random() < .15:
                judge(t, np, r, screen, pal, dual, bm, p)
        again = build(screen, pal, dual, mems)
        for p in range(32):
            t.emit("Again", p=p, fresh=[limbs(x) for x in again.packed[p]],
                   kept=[limbs(x) for x in bm.packed[p]])


def judge(t, np, r, screen, pal, dual, bm, page):
    """Asks about the differences to another screen, both ways."""
    mems = [screen.MemoryMap(screen_page=1) for _ in (0, 1)]
    for m in mems:
        m.page_offset[:, :] = np.frombuffer(
            bytes(r.getrandbits(7) for _ in range(8192)),
            dtype=np.uint8).reshape((32, 256))
    other = build(screen, pal, dual, mems)
    both = [bm, other]
    before = [snapshot(x) for x in both]
    for a, b in (both, both[::-1]):
        for aux in range(dual + 1):
            w = a.diff_weights(b, bool(aux))
            v = np.uint8(r.choice([0, 127, r.randrange(128)]))
            a.compute_delta_page(page, v, w[page, :], bool(aux))
            o = r.randrange(256)
            a.byte_pair_difference(
                a.byte_offset(o, bool(aux)), b.packed[page, o // 2],
                np.uint8(r.randrange(128)))
    t.emit("Judged", changed=[
        [k, j, int(np.count_nonzero(x != y))] for k in (0, 1)
        for j, (x, y) in enumerate(zip(before[k], snapshot(both[k])))
        if np.any(x != y)])


def snapshot(bm):
    return [x.copy() for x in (
        bm.packed, bm.main_memory.page_offset,
        (bm.aux_memory or bm.main_memory).page_offset)]


def build(screen, pal, dual, mems):
    if dual:
        return screen.DHGRBitmap(palette=pal,
                                 main_memory=mems[0], aux_memory=mems[1])
    return screen.HGRBitmap(palette=pal, main_memory=mems[0])

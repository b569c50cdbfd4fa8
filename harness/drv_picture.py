"""What the code says is on the screen: dots and colours.

For every context of every byte position (args: dots or pixels), for whole
random screens, and for random runs of dots.
"""

import os
import random

import env


def main(t, args):
    what, screens = args[0], int(args[1])
    env.setup()
    with env.quiet():
        import colours
        import palette
        import screen
    r = random.Random("picture" + os.environ["VERIF_SEED"])
    both = ((0, screen.HGRBitmap, colours.HGRColours),
            (1, screen.DHGRBitmap, colours.DHGRColours))

    def pixels(cls, nom, pos, dots):
        return colours.dots_to_nominal_colour_pixel_values(
            int(cls.MASKED_DOTS), dots, nom, init_phase=cls.PHASES[pos])

    for dual, cls, nom in both:
        for pos in range(len(cls.PHASES)):
            for v in range(0, 1 << int(cls.MASKED_BITS), 256):
                dots = [int(cls.to_dots(x, byte_offset=pos))
                        for x in range(v, v + 256)]
                if what == "dots":
                    t.emit("Dots", dual=dual, pos=pos, **{"from": v},
                           dots=dots)
                else:
                    t.emit("Pixels", dual=dual, pos=pos, **{"from": v},
                           px=[pixels(cls, nom, pos, d) for d in dots])
        t.emit("Names", dual=dual,
               names=[nom(i).name for i in range(16)])
        for i in range(60):
            n = r.choice([1, 4, 7, 20, 33, 60])
            dots = [r.randrange(2) for _ in range(n + r.randrange(5))]
            ph = r.randrange(4)
            t.emit("Run", n=n, phase=ph, dots=dots, px=[
                p.value for p in colours.dots_to_nominal_colour_pixels(
                    n, sum(b << i for i, b in enumerate(dots)), nom,
                    init_phase=ph)])
        for c in range(16):
            for ph in range(4):
                # screen positions ph, ph+1, ...; bit b of c where pos%4 == b
                dots = sum(((c >> ((ph + i) % 4)) & 1) << i
                           for i in range(40))
                t.emit("Solid", colour=c,
                       px=colours.dots_to_nominal_colour_pixel_values(
                           36, dots, nom, init_phase=ph))

    for i in range(screens):
        dual, cls, nom = both[i % 2]
        mems = [screen.MemoryMap(screen_page=1) for _ in (0, 1)]
        for m in mems:
            for p in range(32):
                for o in range(256):
                    m.page_offset[p, o] = r.choice(
                        [0, 255, 128, r.randrange(256), r.randrange(256)])
        if dual:
            bm = cls(palette=palette.Palette.NTSC, main_memory=mems[0],
                     aux_memory=mems[1])
        else:
            bm = cls(palette=palette.Palette.NTSC, main_memory=mems[0])
        for p in r.sample(range(32), 6):
            dots, px = [], []
            for pos in range(len(cls.PHASES)):
                masked = cls.mask_and_shift_data(bm.packed[p], pos)
                dots.append([int(cls.to_dots(int(v), byte_offset=pos))
                             for v in masked])
                px.append([pixels(cls, nom, pos, d) for d in dots[-1]])
            t.emit("ScreenPage", dual=dual, p=p, main=mems[0].page_offset[p],
                   aux=mems[1].page_offset[p], dots=dots, px=px)

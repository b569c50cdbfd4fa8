"""Colour costs, distances, generated tables and error weights of the code.

args: pairs N | tables CONTEXT_BITS ROUND | scale CONTEXT_BITS |
full NAME PALETTE | solids | weights N
"""

import glob

import os
import random

import env


def main(t, args):
    what = args[0]
    env.setup()
    with env.quiet():
        import colours
        import make_data_tables as mdt
        import palette
        import screen
    r = random.Random(what + os.environ["VERIF_SEED"])
    pals = {p.name: c for p, c in palette.PALETTES.items()}
    for name in ("NTSC", "IIGS"):
        t.emit("Costs", pal=name, cost=env.costs(pals[name]))
    if what == "pairs":
        pairs(t, r, mdt, colours, screen, pals, int(args[1]))
    elif what == "tables":
        tables(t, r, mdt, screen, palette, int(args[1]), int(args[2]))
    elif what == "scale":
        scale(t, r, mdt, screen, palette, int(args[1]))
    elif what == "full":
        full(t, r, mdt, screen, palette, args[1], args[2])
    elif what == "solids":
        solids(t, mdt, screen, palette)
    else:
        weights(t, r, screen, palette, int(args[1]))


def number(x):
    assert float(x) == int(x), x
    return int(x)


def pairs(t, r, mdt, colours, screen, pals, n):
    def real():
        cls, nom = r.choice([(screen.HGRBitmap, colours.HGRColours),
                             (screen.DHGRBitmap, colours.DHGRColours)])
        pos = r.randrange(len(cls.PHASES))
        v = r.randrange(1 << int(cls.MASKED_BITS))
        w = v ^ (r.randrange(256) << 3) if r.random() < .5 \
            else r.randrange(1 << int(cls.MASKED_BITS))
        return [list(colours.dots_to_nominal_colour_pixel_values(
            int(cls.MASKED_DOTS), cls.to_dots(x, byte_offset=pos), nom,
            init_phase=cls.PHASES[pos])) for x in (v, w)]

    def made():
        k = r.randrange(1, 19)
        letters = r.sample(range(16), r.choice([2, 2, 3, 4, 16]))
        a = [r.choice(letters) for _ in range(k)]
        b = list(a)
        style = r.randrange(4)
        if style == 0:
            b = [r.choice(letters) for _ in range(k)]
        elif style == 1:                # exchanges, some overlapping
            for _ in range(r.randrange(1, 6)):
                if k > 1:
                    i = r.randrange(k - 1)
                    b[i], b[i + 1] = b[i + 1], b[i]
        elif style == 2:                # shift by one: chains of exchanges
            b = b[1:] + b[:1]
        else:                           # exchanges and substitutions
            for _ in range(3):
                i = r.randrange(k)
                b[i] = r.choice(letters)
                if i:
                    b[i], b[i - 1] = b[i - 1], b[i]
        return a, b

    # one palette at a time, as the table generator does it
    for p in sorted(pals):
        edp = mdt.compute_substitute_costs(pals[p])

        def dist(x, y):
            return number(mdt.edit_distance(edp, x, y, error=False))

        for i in range(n):
            a, b = real() if i % 3 == 0 else made()
            s, u = mdt.pixel_string(tuple(a)), mdt.pixel_string(tuple(b))
            t.emit("Pair", pal=p, a=a, b=b, d=dist(s, u), back=dist(u, s),
                   same=dist(s, s))
        # the furthest apart that runs can be
        for a in range(16):
            for b in range(16):
                s, u = (mdt.pixel_string((x,) * 18) for x in (a, b))
                t.emit("Pair", pal=p, a=[a] * 18, b=[b] * 18, d=dist(s, u),
                       back=dist(u, s), same=dist(s, s))


class Reduced:
    """The bitmap classes with few contexts: dots[cls][pos][i]."""

    def __init__(self, screen, bits, dots):
        import numpy as np
        for cls in (screen.HGRBitmap, screen.DHGRBitmap):
            cls.MASKED_BITS = np.uint64(bits)

            def to_dots(c, masked_val, byte_offset):
                return dots[c.NAME](int(masked_val), byte_offset)
            cls.to_dots = classmethod(to_dots)


def generate(mdt):
    with env.quiet():
        mdt.main()


def entries(cls, pal, pos, n):
    import numpy as np
    d = np.asarray(cls.edit_distances(pal))
    if d.ndim != 2 or d.shape[0] <= pos or d.shape[1] != n * n:
        # a table of something else: -1 is no distance
        return d.shape[0] if d.ndim else 0, [[-1] * n] * n
    return d.shape[0], [[int(d[pos][i * n + j]) for j in range(n)]
                        for i in range(n)]


ORIG = {}       # the classes' own to_dots


def sample(r, screen, bits):
    """Let the bitmap classes have few contexts; these, by class."""
    n = 1 << bits
    orig = ORIG or {c.NAME: (c.to_dots, 14 if c.NAME == "HGR" else 13)
                    for c in (screen.HGRBitmap, screen.DHGRBitmap)}
    ORIG.update(orig)
    cur = {}
    Reduced(screen, bits, {name: (lambda v, pos, name=name:
                                  orig[name][0](cur[name][v], pos))
                           for name in orig})
    for name, (_, full) in orig.items():
        base = r.randrange(1 << full)
        near = [base ^ (r.randrange(256) << 3) for _ in range(n // 3)]
        cur[name] = r.sample(range(1 << full), n - len(near)) + near
        r.shuffle(cur[name])
    return cur


def tables(t, r, mdt, screen, palette, bits, k):
    """Run the real table generator on a sample of contexts, save, load."""
    r = random.Random("%s/%d" % (r.random(), k))
    n = 1 << bits
    # over tables that are there already
    sample(random.Random(r.random()), screen, 2)
    generate(mdt)
    cur = sample(r, screen, bits)
    generate(mdt)
    for cls in (screen.HGRBitmap, screen.DHGRBitmap):
        for pal in palette.PALETTES:
            for pos in range(len(cls.PHASES)):
                k, d = entries(cls, pal, pos, n)
                t.emit("Table", dual=int(cls.NAME == "DHGR"),
                       pal=pal.name, pos=pos, ctx=cur[cls.NAME], d=d,
                       positions=k)


def scale(t, r, mdt, screen, palette, bits):
    """Like tables, of more contexts than there is time to check entry by
    entry: some, and those with entries unlike the reference table's."""
    import numpy as np
    n = 1 << bits
    cur = sample(r, screen, bits)
    generate(mdt)
    for cls in (screen.HGRBitmap, screen.DHGRBitmap):
        for pal in palette.PALETTES:
            ref = env.ed_table(cls, pal)
            d = np.asarray(cls.edit_distances(pal))
            ok = d.ndim == 2 and d.shape[1] == n * n
            for pos in range(len(cls.PHASES)):
                ctx = r.sample(range(n), 12)
                if ok and pos < len(d):
                    odd = np.flatnonzero(d[pos] != ref[pos])
                    for x in r.sample(list(odd), min(6, len(odd))):
                        ctx += [int(x) // n, int(x) % n]
                    ctx = sorted(set(ctx))
                    rows = [[int(d[pos][i * n + j]) for j in ctx] for i in ctx]
                else:
                    rows = [[-1] * len(ctx)] * len(ctx)
                t.emit("Table", dual=int(cls.NAME == "DHGR"), pal=pal.name,
                       pos=pos, ctx=[cur[cls.NAME][i] for i in ctx], d=rows,
                       positions=d.shape[0] if d.ndim else 0)


def full(t, r, mdt, screen, palette, name, pal):
    """Load a table of full size (which takes too long to generate)."""
    import numpy as np
    cls = {c.NAME: c for c in (screen.HGRBitmap, screen.DHGRBitmap)}[name]
    pal = palette.Palette[pal]
    classes = (screen.HGRBitmap, screen.DHGRBitmap)
    before = [{k: vars(c)[k] for k in ("MASKED_BITS", "to_dots")}
              for c in classes]
    # what the generator's files look like
    Reduced(screen, 2, {c.NAME: lambda v, pos: v for c in classes})
    generate(mdt)
    for c, kept in zip(classes, before):
        for k, v in kept.items():
            setattr(c, k, v)
    bits = int(cls.MASKED_BITS)
    files = [f for f in glob.glob(env.SCRATCH + "/**/*.npz", recursive=True)
             if os.path.basename(f).startswith("%s_palette_%d" % (
                 name, pal.value))]
    if len(files) != 1:
        return
    with np.load(files[0]) as z:
        small = {k: z[k] for k in z.files}
    if len(small) != 1 or list(small.values())[0].shape != (
            len(cls.PHASES), 16):
        return
    (key, small), = small.items()
    low = any(small[o, 4 * i + j] for o in range(len(small))
              for i in range(4) for j in range(i))
    high = any(small[o, 4 * j + i] for o in range(len(small))
               for i in range(4) for j in range(i))
    table = env.ed_table(cls, pal).astype(small.dtype).reshape(
        len(cls.PHASES), 1 << bits, 1 << bits)
    if not (low and high):
        for i in range(1 << bits):
            if low:
                table[:, i, i:] = 0
            else:
                table[:, i, :i] = 0
    np.savez(files[0], **{key: table.reshape(len(cls.PHASES), -1)})
    del table
    env.drop_tables()
    d = cls.edit_distances(pal)
    top = (1 << bits) - 1
    for pos in range(len(cls.PHASES)):
        ctx = [0, 1, top, top - 1, 1 << (bits - 1)] + [
            r.randrange(1 << bits) for _ in range(27)]
        t.emit("Table", dual=int(name == "DHGR"), pal=pal.name, pos=pos,
               ctx=ctx, positions=d.shape[0],
               d=[[int(d[pos][(i << bits) + j]) for j in ctx] for i in ctx])


def solids(t, mdt, screen, palette):
    rep = lambda v, pos: sum(v << (4 * i) for i in range(8))
    Reduced(screen, 4, {"HGR": rep, "DHGR": rep})
    generate(mdt)
    for cls in (screen.HGRBitmap, screen.DHGRBitmap):
        for pal in palette.PALETTES:
            for pos in range(len(cls.PHASES)):
                k, d = entries(cls, pal, pos, 16)
                t.emit("Solids", dual=int(cls.NAME == "DHGR"), pal=pal.name,
                       pos=pos, d=d)


def weights(t, r, screen, palette, n):
    import numpy as np
    with env.quiet():
        env.install_tables("full")

    def rand_page(r):
        style = r.randrange(3)
        some = [r.randrange(256) for _ in range(3)]
        return [r.choice(some) if style else r.randrange(256)
                for _ in range(256)]

    def make(dual, pal, mems):
        if dual:
            return screen.DHGRBitmap(palette=pal, main_memory=mems[0],
                                     aux_memory=mems[1])
        return screen.HGRBitmap(palette=pal, main_memory=mems[0])

    # Both palettes on the same screens, in one process; those with the same
    # tables together
    seed = r.random()
    for dual, pal, i in sorted((i % 2, pal, i) for i in range(n)
                               for pal in ("NTSC", "IIGS")):
        r = random.Random("%s/%d" % (seed, i))
        pal = palette.Palette[pal]
        src, dst = ([screen.MemoryMap(1) for _ in (0, 1)] for _ in (0, 1))
        for m in src + dst:
            for p in range(32):
                m.page_offset[p] = rand_page(r)
        for m, k in zip(src, dst):       # mostly alike
            for p in range(0, 32, 2):
                k.page_offset[p] = m.page_offset[p]
                for _ in range(30):
                    k.page_offset[p, r.randrange(256)] = r.randrange(256)
        a, b = make(dual, pal, src), make(dual, pal, dst)
        pages = r.sample(range(32), 3)
        for aux in range(dual + 1):
            w = b.diff_weights(a, bool(aux))
            for p in pages:
                stores = []
                for v in [r.randrange(128 if dual else 256) for _ in (0, 1)]:
                    stores.append([v, b.compute_delta_page(
                        p, np.uint8(v), w[p], bool(aux)).reshape(-1)])
                pp = []
                for _ in range(40):
                    o, v = r.randrange(256), r.randrange(256)
                    pp.append([o, v, int(b.byte_pair_difference(
                        b.byte_offset(o, bool(aux)), b.packed[p, o // 2],
                        np.uint8(v)))])
                t.emit("Weights", dual=dual, aux=aux, pal=pal.name, p=p,
                       sm=src[0].page_offset[p], sx=src[1].page_offset[p],
                       tm=dst[0].page_offset[p], tx=dst[1].page_offset[p],
                       w=w[p], stores=stores, pairs=pp)

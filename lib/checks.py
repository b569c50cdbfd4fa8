"""What each property's check runs.

Every check (1) explores the design model the property is stated on, with TLC,
and (2) validates behaviour of the real code against the specification: traces
recorded from it, and TLC-generated behaviours replayed into it.
"""

import random

from core import SEED, THOROUGH, pick

REGISTRY = {}


def check(pid):
    def f(fn):
        REGISTRY[pid] = fn
        return fn
    return f


def rng(tag):
    return random.Random("%s/%d" % (tag, SEED))


# --------------------------------------------------------------------------
# The stream (Mux.tla, StreamTrace.tla)

def movies_layout(r, n):
    """Both modes, with limits around every interesting position."""
    out = []
    for mode in ("HGR", "DHGR"):
        out.append(dict(kind="sparse", mode=mode, samples=pick(2600, 9000)))
        out.append(dict(kind="sparse", mode=mode, samples=r.randrange(30, 280),
                        frames=1))
    edges = [1, 6, 7, 8, 14, 2041, 2043, 2044, 2045, 2047, 2048, 2049, 2055,
             4088, 4092, 4093, 4096, 4097, 4103, 6140, 6144]
    caps = r.sample(edges, min(n, len(edges)))
    caps += [r.randrange(1, 9000) for _ in range(n // 2)]
    for cap in caps:
        out.append(dict(kind="sparse", mode=r.choice(["HGR", "DHGR"]),
                        samples=1500, cap=str(cap)))
    # limits that are not whole bytes, as --max_output_mb gives
    for mb in (0.001, 0.002, 0.0035):
        out.append(dict(kind="sparse", mode=r.choice(["HGR", "DHGR"]),
                        samples=1500, cap=repr(mb * 1024 * 1024)))
    # ends at, just before and just after a frame boundary
    for s in (0, 1, 290, 291, 292, 583, 584):
        out.append(dict(kind="sparse", mode=r.choice(["HGR", "DHGR"]),
                        samples=s))
    # the video ends first, at various places
    for f in (1, 2, 3):
        out.append(dict(kind="sparse", mode=r.choice(["HGR", "DHGR"]),
                        samples=1700, frames=f,
                        fps=r.choice(["30/1", "60/1", "24000/1001"])))
    return out


def movies_busy(r, n, samples):
    out = []
    for i in range(n):
        out.append(dict(
            kind="busy", mode=("HGR", "DHGR")[i % 2], samples=samples,
            fps=r.choice(["60/1", "120/1", "50/1"]),
            skip=r.choice([1, 1, 2]),
            palette=("IIGS", "NTSC")[i // 2 % 2], n=r.randrange(10 ** 6)))
    return out


def movies_dense(r, samples):
    """A new frame every few operations, so that one is due at the very
    operation that follows a bank switch; most of them are skipped."""
    out = []
    for i, (per, skip) in enumerate(((2, 3), (5, 2), (292, 2), (146, 3),
                                     (73, 5))):
        out.append(dict(kind="busy", mode="DHGR", rate=14700,
                        fps="14700/%d" % per, skip=skip, track=1,
                        samples=samples // (4 if per < 9 else 1),
                        palette=("IIGS", "NTSC")[i % 2],
                        n=r.randrange(10 ** 6)))
    return out


def movies_long(r, cap=False):
    """Longer than any 16-bit count of samples, bytes or frames' samples."""
    n = pick(70000, 300000)
    out = [dict(kind="sparse", mode=r.choice(["HGR", "DHGR"]), samples=n,
                fps=r.choice(["30/1", "24000/1001", "60/1"]),
                skip=r.choice([1, 1, 2]))]
    if cap:
        out[0]["cap"] = str(r.choice([65536 + 7, 262144, 131072 - 2,
                                      r.randrange(100000, 400000)]))
        out[0]["samples"] = 60000
    return out


def movies_idle(r, n):
    """Movies with little to do, so that the encoder idles most of the time."""
    return [dict(kind="still", mode=("HGR", "DHGR")[i % 2],
                 samples=pick(1300, 4000), fps="60/1",
                 palette=("NTSC", "IIGS")[i // 2 % 2], n=r.randrange(10 ** 6))
            for i in range(n)]


def streams(c, *batches, long=()):
    """Whole movies; and the transport alone, as long as real ones."""
    def job(b):
        def f():
            c.validate("StreamTrace", c.drive("stream", data=b))
        return f
    c.parallel(*[job(b) for b in batches],
               *[lambda x=x: c.validate("LongTrace", c.drive("long", data=[x]))
                 for x in long])


def long_streams(r, *modes):
    n = pick(3 * 10 ** 6, 2 * 10 ** 7)       # 21 and 140 MB
    return [[mode, n, 0 if i else r.choice([
        0, r.randrange(n * 6, n * 7) + r.choice([0, .25]),
        2048 * r.randrange(n // 300, n // 293) - r.randrange(20)])]
            for i, mode in enumerate(modes)]


STREAM_ASSUMES = [
    "video decoder (ffmpeg), bmp2dhr and numba are replaced at the process "
    "or package boundary; audio comes from real .wav files through librosa",
    "edit-distance tables are computed by harness/edtable.c from the "
    "project's pixel strings and costs (C24 checks they are the same)"]


@check("C01")
def c01(c):
    r = rng("C01")
    c.assumptions = STREAM_ASSUMES
    c.parallel(lambda: c.mc("MC_Mux", min_states=1000),
               lambda: c.inductive("MuxInd"))
    streams(c, movies_layout(r, pick(10, 21)), movies_long(r),
            movies_busy(r, pick(2, 6), pick(700, 3000)),
            long=long_streams(r, "DHGR", "HGR"))


@check("C02")
def c02(c):
    r = rng("C02")
    c.assumptions = STREAM_ASSUMES
    c.mc("MC_Mux", min_states=1000)
    if THOROUGH:
        c.inductive("MuxInd")
    streams(c, movies_layout(r, pick(16, 21)), movies_layout(r, pick(16, 21)),
            movies_long(r, True), movies_long(r),
            long=long_streams(r, "HGR") + long_streams(r, "DHGR"))


@check("C03")
def c03(c):
    r = rng("C03")
    c.assumptions = STREAM_ASSUMES
    c.mc("MC_Mux", min_states=1000)
    if THOROUGH:
        c.inductive("MuxInd")
    # the player's part
    c.parallel(*play(c, [2048, 8192], pick(3, 9)))
    streams(c, [dict(m, track=1) for m in movies_layout(r, pick(4, 10))[:6]],
            movies_busy(r, pick(4, 8), pick(1000, 4000)),
            movies_idle(r, pick(2, 8)) + movies_long(r),
            movies_dense(r, pick(3000, 9000)),
            long=long_streams(r, "DHGR"))


@check("C04")
def c04(c):
    r = rng("C04")
    c.assumptions = STREAM_ASSUMES
    c.mc("MC_Mux", min_states=1000)
    c.parallel(*play(c, [2048, 8192], pick(3, 9)))
    streams(c, movies_busy(r, pick(2, 8), pick(1500, 5000)),
            movies_busy(r, pick(2, 8), pick(1500, 5000)),
            movies_idle(r, pick(8, 24)))


@check("C06")
def c06(c):
    r = rng("C06")
    c.assumptions = STREAM_ASSUMES
    c.mc("MC_Mux", min_states=1000)
    c.parallel(*play(c, [2048, 8192], pick(3, 9), variety=pick(60, 400)))
    streams(c, movies_layout(r, pick(6, 21)),
            [dict(kind="sparse", mode=m, samples=pick(5000, 20000), fps=f,
                  skip=s) for m, f, s in (("HGR", "60/1", 1),
                                          ("DHGR", "24000/1001", 2))],
            movies_long(r), movies_busy(r, pick(2, 6), pick(800, 3000)))


def movies_pacing(r, n, samples):
    out = []
    for i in range(n):
        rate = r.choice([14700, 14700, 22500, 11025, 8000])
        fps = r.choice(["30/1", "30000/1001", "24000/1001", "25/1", "60/1",
                        "60000/1001", "12/1", "15/2", "1/2", "120/1"])
        out.append(dict(kind="sparse", mode=r.choice(["HGR", "DHGR"]),
                        rate=rate, fps=fps, skip=r.choice([1, 1, 2, 3, 5]),
                        samples=samples, n=i))
    # more frames than samples, frames that end the movie, tiny ratios
    for fps in ("14700/1", "20000/1", "14699/2", "14700/7", "3000/1"):
        out.append(dict(kind="sparse", mode=r.choice(["HGR", "DHGR"]),
                        fps=fps, samples=60, skip=r.choice([1, 2])))
    # frames due a hair before a sample: any rounding of the rate shows
    for p, q in r.sample([(24000, 1001), (30000, 1001), (60000, 1001),
                          (15000, 1001), (2997, 100), (1199, 50),
                          (12000, 1001), (2500, 101), (48000, 1001)], 4):
        rate = (-pow(q, -1, p)) % p
        while rate < 6000:
            rate += p
        out.append(dict(kind="sparse", mode=r.choice(["HGR", "DHGR"]),
                        rate=rate, fps="%d/%d" % (p, q), samples=9 * rate * q
                        // p, skip=1))
    for f in (1, 4, 9):
        out.append(dict(kind="sparse", mode=r.choice(["HGR", "DHGR"]),
                        fps=r.choice(["30/1", "30000/1001", "60/1"]),
                        frames=f, samples=6000, skip=r.choice([1, 2, 3])))
    return out


@check("C15")
def c15(c):
    r = rng("C15")
    c.assumptions = STREAM_ASSUMES
    c.mc("MC_Pacing")
    c.inductive("PacingInd")
    # frame rates and sample rates with nothing in common, besides usual ones
    far = [[fps, rate, pick(1200000, 9000000)] for fps, rate in [
        (r.choice(["24000/1001", "30000/1001", "2997/100"]), 14700),
        ("24000/1001", r.choice([14699, 11027, 22501])),
        ("2997/100", r.choice([14699, 11027, 22501]))] + r.sample([
            ("30000/1001", 22500), ("24000/1001", 11025), ("25/1", 14700),
            ("60000/1001", 14699), ("24/1", 22050), ("60/1", 14700)],
            pick(1, 6))]
    c.parallel(
        lambda: c.validate("ClockTrace", c.drive("clock", data=far)),
        lambda: streams(c, movies_pacing(r, pick(3, 10), pick(5000, 20000)),
                        movies_pacing(r, pick(3, 10), pick(5000, 20000)),
                        movies_long(r)))


# --------------------------------------------------------------------------
# Screen memory and its appearance

@check("C19")
def c19(c):
    c.mc("MC_Geometry", min_states=1000)
    hs = c.generate("Gen_Geometry", "Gen_Geometry.cfg",
                    num=pick(60, 600), depth=60)
    c.validate("GeometryTrace", c.drive("geometry", data=hs))


@check("C20")
def c20(c):
    r = rng("C20")
    c.parallel(lambda: c.mc("MC_Packed", min_states=100),
               lambda: c.mc("MC_Packed", "MC_PackedD.cfg", min_states=100))
    hs = []
    for dual, cfg in ((0, "Gen_Packed.cfg"), (1, "Gen_PackedD.cfg")):
        for i, ops in enumerate(c.generate("Gen_Packed", cfg,
                                           num=pick(20, 150), depth=60)):
            hs.append(dict(dual=dual, ops=ops, palette=("NTSC", "IIGS")[i % 2],
                           fill=r.randrange(10 ** 6) if i % 3 else None))
        # every offset once, in random order, over a busy screen
        for b in range(dual + 1):
            offs = r.sample(range(256), 256)
            hs.append(dict(dual=dual, fill=r.randrange(10 ** 6),
                           palette=r.choice(["NTSC", "IIGS"]), ops=[
                [b, r.randrange(32), o, r.randrange(256)] for o in offs]))
    c.validate("PackedTrace", c.drive("packed", data=hs))


def pictures(c, what):
    c.parallel(lambda: c.mc("MC_Picture", min_states=1000),
               lambda: c.mc("MC_Picture", "MC_PictureD.cfg", min_states=1000),
               lambda: c.validate("PictureTrace",
                                  c.drive("picture", what, pick(6, 60))))


@check("C21")
def c21(c):
    pictures(c, "dots")
    c.extra["contexts_enumerated"] = 2 * 2 ** 14 + 4 * 2 ** 13


@check("C22")
def c22(c):
    pictures(c, "pixels")
    c.extra["contexts_enumerated"] = 2 * 2 ** 14 + 4 * 2 ** 13


def distance(c, *args):
    c.parallel(
        lambda: c.mc("MC_Distance", "MC_Distance.cfg", min_states=1000),
        lambda: c.validate("DistanceTrace", c.drive("distance", *args)))


@check("C23")
def c23(c):
    if THOROUGH:
        c.mc("MC_Distance", "MC_DistanceDeep.cfg", min_states=1000,
             timeout=1500)
    distance(c, "pairs", pick(2000, 30000))


@check("C24")
def c24(c):
    c.assumptions.append(
        "the generator runs on samples of contexts (each class's MASKED_BITS "
        "and to_dots reduced), the exact pair enumeration being the same; "
        "loading is also tried on tables of full size")
    c.parallel(
        lambda: c.mc("MC_Distance", "MC_Distance.cfg", min_states=1000),
        *[lambda k=k: c.validate("DistanceTrace", c.drive(
            "distance", "tables", pick(5, 6), k)) for k in range(pick(2, 8))],
        lambda: c.validate("DistanceTrace", c.drive(
            "distance", "scale", pick(9, 10))),
        lambda: c.validate("DistanceTrace", c.drive(
            "distance", "full", "DHGR", pick("NTSC", "IIGS"))))
    if THOROUGH:        # alone: loading takes more than 10 GB
        c.validate("DistanceTrace", c.drive("distance", "full", "HGR", "NTSC"))


@check("C25")
def c25(c):
    distance(c, "solids")


@check("C26")
def c26(c):
    distance(c, "weights", pick(4, 30))


# --------------------------------------------------------------------------
# The encoder

def encoder(c, tag, num, parts):
    r = rng(tag)
    c.assumptions = [STREAM_ASSUMES[1],
                     "target images have zero screen holes"]
    jobs = [lambda: c.mc("MC_Encoder", "MC_Encoder.cfg", min_states=1000),
            lambda: c.mc("MC_Encoder", "MC_EncoderWide.cfg", min_states=1000)]
    if THOROUGH:
        jobs.append(lambda: c.mc("MC_Encoder", "MC_EncoderDeep.cfg",
                                 min_states=1000))
    hs = []
    for dual, cfg in ((0, "Gen_Encoder.cfg"), (1, "Gen_EncoderD.cfg")):
        for i, ops in enumerate(c.generate("Gen_Encoder", cfg, num=num,
                                           depth=60)):
            hs.append(dict(dual=dual, ops=ops, seed=r.randrange(10 ** 6),
                           pal=("NTSC", "IIGS")[i % 2]))
    if tag == "C13":
        for dual, cfg in ((0, "Gen_EncoderL.cfg"), (1, "Gen_EncoderLD.cfg")):
            ls = [ops for ops in c.generate("Gen_Encoder", cfg, num=pick(12, 60),
                                            depth=60)
                  if any(o[0] == "linger" for o in ops)]
            for i, ops in enumerate(ls[:pick(2, 12)]):
                hs.append(dict(dual=dual, ops=ops, seed=r.randrange(10 ** 6),
                               pal=("NTSC", "IIGS")[i % 2]))
    if tag == "C14":
        for h in (hs[0], hs[-1]):
            h["ops"].append(["settle"])
            h["idle"] = pick(2 * 10 ** 6, 2 * 10 ** 7)
    # each driver needs the tables of one mode and palette only
    for kind in sorted({(h["dual"], h["pal"]) for h in hs}):
        mine = [h for h in hs if (h["dual"], h["pal"]) == kind]
        for k in range(parts):
            if mine[k::parts]:
                jobs.append(lambda b=mine[k::parts]: c.validate(
                    "EncoderTrace", c.drive("encoder", data=b)))
    c.parallel(*jobs)


@check("C11")
def c11(c):
    encoder(c, "C11", pick(6, 60), pick(1, 2))


@check("C12")
def c12(c):
    encoder(c, "C12", pick(4, 20), pick(1, 2))


@check("C13")
def c13(c):
    encoder(c, "C13", pick(6, 60), pick(1, 2))


@check("C14")
def c14(c):
    encoder(c, "C14", pick(6, 60), pick(1, 2))


# --------------------------------------------------------------------------
# Operation bytes and addresses

@check("C05")
def c05(c):
    c.assumptions = PLAYER_ASSUMES
    c.mc("MC_Codec", min_states=1000, workers="1")
    c.parallel(lambda: c.validate(
        "CodecTrace", c.drive("codec", "emit", pick(2, 20))), *routines(c, 1))


@check("C34")
def c34(c):
    c.mc("MC_Symbols", min_states=1000)
    hs = c.generate("Gen_Symbols", "Gen_Symbols.cfg", num=pick(300, 3000),
                    depth=40)
    c.validate("CodecTrace", c.drive("codec", "parse", data=hs))


# --------------------------------------------------------------------------
# The player: its assembled code runs inside the specification (PlayerCode)

PLAYER_ASSUMES = [
    "the 6502 model is compared with py65 on random instructions; the W5100 "
    "model (pointer wrap, RSR, RECV) follows its data sheet as far as the "
    "player's comments describe it",
    "Apple II firmware calls (COUT, HGR internals, ProDOS MLI) are replaced "
    "by what they do; the player is assembled with the installed cc65"]


def player_env(c, **opt):
    return {"PLAYER": c.drive("player", "code", data=opt)}


LEVELS = [1, 1460, 2047, 2048, 2049, 4096, 6000, 8191, 8192]


def routines(c, rounds):
    """Each of the player's operations, by itself."""
    return [lambda k=k: c.validate("PlayerTrace", c.drive(
        "player", "ops", rounds, pick(1000, 4000), k),
        timeout=800) for k in range(4)]


@check("C07")
def c07(c):
    c.assumptions = PLAYER_ASSUMES
    c.parallel(lambda: c.mc("MC_Player", "MC_Player.cfg", min_states=1000),
               *routines(c, pick(1, 12)))


def play(c, levels, frames, modes=(0, 1), **kw):
    """Flow control and timing: every answer to every look at the card."""
    opts = dict(levels=levels, status=["accept"], ops=291 * frames + 37)
    opts.update(kw)
    return [lambda d=d: c.explore(
        "PlayerCode", player_env(c, mode=d, salt=SEED, **opts),
        reach=["pause", "resume", "term", "quitting", "done"],
        timeout=800, workers="3") for d in modes]


@check("C08")
def c08(c):
    c.assumptions = PLAYER_ASSUMES
    c.parallel(lambda: c.mc("MC_Player", "MC_PlayerDeep.cfg", min_states=1000),
               lambda: c.inductive("PlayerInd"),
               *play(c, LEVELS, pick(5, 9)))
    if THOROUGH:
        r = rng("C08")
        for _ in range(4):
            c.parallel(*play(c, LEVELS + r.sample(range(2, 8191), 6), 6,
                             variety=200))


@check("C09")
def c09(c):
    c.assumptions = PLAYER_ASSUMES
    c.parallel(lambda: c.mc("MC_Player", "MC_Player.cfg", min_states=1000),
               *play(c, [2047, 2048, 4096, 8192], pick(3, 9),
                     variety=pick(60, 400)))


@check("C10")
def c10(c):
    c.assumptions = PLAYER_ASSUMES
    jobs = [lambda: c.mc("MC_Player", "MC_Player.cfg", min_states=1000)]
    for mode in (0, 1):
        for part in range(2):
            jobs.append(lambda mode=mode, part=part: c.explore(
                "PlayerCode", player_env(
                    c, mode=mode, part=part, ops=pick(340, 1500), salt=SEED,
                    early=True,
                    levels=[6, 7, 255, 256, 257, 2047, 2048, 8192],
                    status=["stay", "accept", "refuse"], openfails=True),
                reach=["error", "header", "pause", "resume", "term",
                       "quitting", "done"], workers="2"))
    c.parallel(*jobs)


# --------------------------------------------------------------------------
# Audio (Audio.tla, AudioTrace.tla)

AUDIO_ASSUMES = [
    "librosa's resampler is taken as it is installed; the decoder is the "
    "standard library's wave reader, or a stand-in for audioread that "
    "delivers the same bytes in other block sizes"]


def durations(c, num):
    out = []
    for f in (2, 4, 6, 12):
        for h in c.generate("Gen_Audio", "Gen_Audio%d.cfg" % f, num=num,
                            depth=400):
            out.append(dict(h, kind="duration", blocks=h["blocks"] or [1]))
    return out


def real_durations(r, n):
    """Rates in use, with block sizes real decoders have."""
    srs = [8000, 11025, 16000, 22050, 24000, 32000, 44100, 48000]
    rates = [14700, 22500, 11025, 14340, 22050]
    out = []
    for i in range(n):
        sr, rate = srs[i % len(srs)], rates[(i // len(srs) + i) % len(rates)]
        ch = r.choice([1, 1, 2])
        secs = r.choice([1, 2]) if i % 2 else r.randrange(1, 3)
        frames = sr * secs + (0 if i % 3 else r.randrange(1, sr))
        out.append(dict(kind="duration", sr=sr, rate=rate, n=frames,
                        frame=2 * ch, blocks=r.choice(
                            [[131072 * 2 * ch], [4096], [8192], [1152 * 2 * ch],
                             [1000, 3000, 77], [sr * 2 * ch],
                             [4096, 0, 2048]])))
    for sr, rate in ((44100, 14700), (48000, 14700), (22050, 22500)):
        out.append(dict(kind="duration", sr=sr, rate=rate, frame=2,
                        n=sr * pick(40, 400) + r.randrange(2),
                        blocks=r.choice([[4096], [131072 * 2], [1152 * 2]])))
    return out


@check("C16")
def c16(c):
    r = rng("C16")
    c.assumptions = AUDIO_ASSUMES
    cases = []
    # every 16-bit value, in order
    for p, q in [(1, 1)] + pick([(7, 3)], [(2, 1), (1, 2), (7, 3), (10, 9)]):
        cases.append(dict(kind="exact", sr=14700, rate=14700, ch=1, n=65536,
                          p=p, q=q, shape="ramp"))
    for ch in (1, 2, 3, 6):
        for shape in ("noise", "left", "quiet"):
            p, q = r.choice([(1, 1), (2, 1), (4, 1), (3, 2), (25, 2), (9, 7)])
            cases.append(dict(kind="exact", sr=1000, rate=1000, ch=ch,
                              n=r.randrange(900, 3500), p=p, q=q, shape=shape,
                              blocks=r.choice([None, [4096], [1000, 24, 6]])))
            cases.append(dict(kind="exact", sr=1000, rate=1000, ch=ch,
                              n=r.randrange(900, 3500), shape=shape,
                              blocks=r.choice([None, [4096], [1000, 24, 6]])))
    for sr, rate in ((2000, 500), (500, 2000), (4800, 1470), (44100, 14700)):
        for ch in (1, 2):
            cases.append(dict(
                kind="coarse", sr=sr, rate=rate, ch=ch,
                secs=[r.choice([0, 0, 5000, -5000, 20000, -20000,
                                r.randrange(-32768, 32768)])
                      for _ in range(4)]))
    for ch in (1, 2):
        cases.append(dict(kind="exact", sr=14700, rate=14700, ch=ch, n=0,
                          shape="quiet"))
    if THOROUGH:
        for i in range(60):
            ch = r.choice([1, 2, 4])
            d = dict(kind="exact", sr=3000, rate=3000, ch=ch,
                     n=r.randrange(1, 9000), shape=r.choice(
                         ["noise", "quiet", "left"]))
            if i % 2:
                d.update(p=r.randrange(1, 40), q=r.randrange(1, 20))
            cases.append(d)
    c.parallel(lambda: c.mc("MC_Audio", min_states=1000),
               lambda: c.validate("AudioTrace", c.drive("audio", data=cases)))


@check("C17")
def c17(c):
    r = rng("C17")
    c.assumptions = AUDIO_ASSUMES
    c.mc("MC_Audio", pick("MC_Audio.cfg", "MC_AudioDeep.cfg"),
         min_states=1000)
    cases = durations(c, pick(40, 400))
    real = real_durations(r, pick(40, 200))
    c.parallel(
        lambda: c.validate("AudioTrace", c.drive("audio", data=cases)),
        lambda: c.validate("AudioTrace", c.drive("audio", data=real)))


@check("C18")
def c18(c):
    r = rng("C18")
    c.assumptions = AUDIO_ASSUMES
    cases = []

    def add(**k):
        d = dict(kind="exact", sr=1000, rate=1000, ch=1)
        d.update(k)
        cases.append(d)

    for n in (0, 1, 2, 3, 199, 200, 201, 202, 1000, 2500):
        for v in (0, 1, -1, 32767, -32768, 777):
            add(n=n, shape="constant", value=v, ch=r.choice([1, 2]))
        add(n=n, shape="noise", ch=r.choice([1, 2, 3]))
        add(n=n, shape="quiet")
    for n in (1000, 2000):
        for k in (1, 4, 5, 6, 9, 10, 11, 12, 20):
            add(n=n, shape="spikes", spikes=k, value=r.choice(
                [30000, -30000, 8000]))
    for lo, hi in ((0, 5000), (-9000, 1), (-30000, 2000), (-200, 30000)):
        add(n=1500, shape="onesided", lo=lo, hi=hi)
    for p, q in ((1, 1), (3, 1), (1, 3), (100, 1), (5, 4), (1, 50), (0, 1)):
        add(n=500, shape="noise", p=p, q=q)
        add(n=500, shape="constant", value=0, p=p, q=q)
    for sr, rate in ((2000, 500), (500, 2000), (44100, 14700)):
        for v in (0, 1, -1, 300, 32767, -32768):
            cases.append(dict(kind="coarse", sr=sr, rate=rate, ch=1,
                              secs=[v] * 2))
        cases.append(dict(kind="coarse", sr=sr, rate=rate, ch=2,
                          secs=[20000, -20000, 0, 20000]))
    # 10 MB of the file are looked at
    for early, late in ((1000, 30000), (-900, 0)):
        cases.append(dict(kind="beginning", n=6000000, rate=14700,
                          quiet=5 * 1024 * 1024 + 400000, early=early,
                          late=late, amp=abs(early)))
    cases.append(dict(kind="beginning", n=5000000, rate=14700, quiet=4500000,
                      early=100, late=-20000, amp=20000))
    if THOROUGH:
        for _ in range(150):
            add(n=r.randrange(1, 6000), ch=r.choice([1, 2, 3]),
                shape=r.choice(["noise", "quiet", "left"]))
    c.parallel(lambda: c.mc("MC_Audio", min_states=1000),
               lambda: c.validate("AudioTrace", c.drive("audio", data=cases)))


# --------------------------------------------------------------------------
# Video frames (Frames.tla, FramesTrace.tla; Cache.tla, CacheTrace.tla)

FRAME_ASSUMES = [
    "the video decoder (skvideo/ffmpeg) and bmp2dhr are replaced at the "
    "process boundary by stand-ins that write one recognisable file per "
    "frame and part, and fail when told to"]


def schedules(c, num):
    seen, out = set(), []
    r = rng("sched")
    for h in c.generate("Gen_Frames", "Gen_Frames.cfg", num=num, depth=500):
        key = repr(h)
        if key in seen:
            continue
        seen.add(key)
        h.update(mode=r.choice(["HGR", "DHGR"]), start="step",
                 kind=r.choice(["decode", "call", "missing"]))
        out.append(h)
    return out


@check("C27")
def c27(c):
    r = rng("C27")
    c.assumptions = FRAME_ASSUMES
    c.mc("MC_Frames", pick("MC_Frames.cfg", "MC_FramesDeep.cfg"),
         min_states=1000)
    c.inductive("FramesInd")
    cases = schedules(c, pick(60, 500))
    # the thread runs as far ahead as it can, with long videos
    for fault in (-1, -1, 90, 3, 0):
        cases.append(dict(len=100, fault=fault, kind=r.choice(
            ["decode", "call", "missing"]), mode=r.choice(["HGR", "DHGR"]),
            start="flood", sched=[], end=""))
    for kind in ("decode", "call", "missing"):
        for fault in (0, 1, 11):
            cases.append(dict(len=12, fault=fault, kind=kind, mode="DHGR",
                              start="flood", sched=[], end=""))
    parts = [cases[i::4] for i in range(4)]
    # a real film has thousands of frames
    parts.append([dict(len=pick(1300, 12000), fault=-1, kind="", mode="HGR",
                       start="flood", sched=[], end="")])
    # one side is slow, in earnest
    stall = pick(20, 100)
    base = dict(len=14, fault=-1, kind="", mode="DHGR", end="", stall=stall)
    parts += [[dict(base, start="step", sched=["C", "T", "W", "S", "C"])],
              [dict(base, start="flood", sched=[])],
              [dict(base, start="step", slow=2, len=4,
                    sched=["C", "T", "C", "T", "C", "T"])]]
    c.parallel(*[lambda p=p: c.validate(
        "FramesTrace", c.drive("frames", data=dict(sched=p)))
        for p in parts], n=8)


VIDEO_SETS = [
    ([["a", "clip.mp4"], ["b", "clip.mp4"], ["a", "clip2.mp4"]],
     ["clip", "clip", "clip2"]),
    ([["x.y", "m.mp4"], ["x.z", "m.mp4"], ["x", "m.mp4"]], ["m", "m", "m"]),
    ([["a.b.mp4"], ["a.c.mp4"], ["a.mp4"]], ["a.b", "a.c", "a"]),
    ([["s p", "my film.avi"], ["s p", "my.avi"], ["my film.avi"]],
     ["my film", "my", "my film"]),
    ([["m.mkv"], ["m", "HGR.mkv"], ["m", "HGR", "IIGS.mkv"]],
     ["m", "HGR", "IIGS"]),
    ([["clip"], ["d.x", "clip"], ["d.x", "clip2.mp4"]],
     ["clip", "clip", "clip2"]),
]


def histories(c, num):
    seen, out = set(), []
    for h in c.generate("Gen_Cache", "Gen_Cache.cfg", num=num, depth=60):
        if repr(h) in seen:
            continue
        seen.add(repr(h))
        videos, stems = VIDEO_SETS[len(out) % len(VIDEO_SETS)]
        out.append(dict(n=3, ops=h, videos=videos, stems=stems,
                        relative=len(out) % 3 == 0))
    return out


@check("C28")
def c28(c):
    c.assumptions = FRAME_ASSUMES
    c.mc("MC_Cache", min_states=1000)
    hs = histories(c, pick(40, 400))
    parts = [hs[i::4] for i in range(4)]
    # a real film has thousands of frames
    n = pick(1300, 11300)
    parts.append([dict(n=n, videos=VIDEO_SETS[0][0], stems=VIDEO_SETS[0][1],
                       relative=False, ops=[
        ["crash", 0, "DHGR", "NTSC", n - 7, True, True],
        ["run", 0, "DHGR", "NTSC"], ["del", 0, "DHGR", "NTSC", n - 2, "aux"],
        ["run", 0, "DHGR", "NTSC"]])])
    c.parallel(*[lambda p=p: c.validate(
        "CacheTrace", c.drive("frames", data=dict(histories=p)))
        for p in parts])


@check("C36")
def c36(c):
    c.assumptions = FRAME_ASSUMES
    c.mc("MC_Image", min_states=1000)
    r = rng("C36")
    cases = []
    sizes = [(280, 192), (560, 384), (640, 360), (1920, 1080), (320, 240),
             (100, 75), (720, 480), (192, 280), (1280, 720), (60, 600),
             (280, 384), (560, 192), (140, 192), (280, 96)]
    for w, h in sizes * pick(2, 10):
        # blocks wide enough for something to be inside them
        gx = r.choice([g for g in range(1, 17) if w % g == 0
                       and min(w, 280) // g >= 10])
        gy = r.choice([g for g in range(1, 17) if h % g == 0
                       and min(h, 192) // g >= 10])
        cases.append(dict(w=w, h=h, gx=gx, gy=gy, again=r.choice([0, 0, 1]),
                          mode=r.choice(["HGR", "DHGR"]),
                          palette=r.choice(["NTSC", "IIGS"])))
    # as many colours as can be told apart
    for w, h in ((280, 192), (560, 384), (280, 576), (1120, 192)):
        cases.append(dict(w=w, h=h, gx=28, gy=16, again=0, palette="IIGS",
                          mode=r.choice(["HGR", "DHGR"])))
    parts = [cases[i::4] for i in range(4)]
    c.parallel(*[lambda p=p: c.validate(
        "ImageTrace", c.drive("image", data=p)) for p in parts])


# --------------------------------------------------------------------------
# Command line (Cli.tla, CliTrace.tla)

@check("C29")
def c29(c):
    c.assumptions = STREAM_ASSUMES
    c.mc("MC_Cli", min_states=1000)
    cases, seen = [], set()
    for h in c.generate("Gen_Cli", "Gen_Cli.cfg", num=pick(320, 3000),
                        depth=12):
        if repr(h) not in seen:
            seen.add(repr(h))
            cases.append(h)
    parts = [cases[i::4] for i in range(4)]
    c.parallel(*[lambda p=p: c.validate(
        "CliTrace", c.drive("cli", data=p)) for p in parts])


# --------------------------------------------------------------------------
# Server (Server.tla, ServerTrace.tla)

SERVER_ASSUMES = [
    "TCP on loopback stands for the network", "clients send nothing",
    "the file is replaced whole (renamed into place)"]
SIZES = [0, 1, 2047, 2048, 65536, 300001, 2000003, 6 << 20, 9000001]


@check("C30")
def c30(c):
    c.assumptions = SERVER_ASSUMES
    c.mc("MC_Server", "MC_Server.cfg", min_states=1000)
    if THOROUGH:
        c.mc("MC_Server", "MC_ServerDeep.cfg", min_states=10000, timeout=900)
    r = rng("server")
    cases, seen = [], set()
    for h in c.generate("Gen_Server", "Gen_Server.cfg", num=pick(40, 400),
                        depth=120):
        if repr(h) not in seen:
            seen.add(repr(h))
            cases.append([r.randrange(1 << 30),
                          [r.choice(SIZES) for _ in range(3)], h])
    # every size, alone; finished clients, then a restart
    for n in SIZES:
        cases.append([n, [n, 1, 1], [
            ["connect", 1, 0], ["drain", 0], ["restart", 0],
            ["connect", 2, 4096]]])
    # a long film
    big = pick(300, 1100) << 20
    cases.insert(0, [6, [big + 3, 1, 1], [["connect", 1, 0], ["drain", 0]]])
    # a reader that stops for long, with others behind it
    stall = pick(65, 310)
    paused = [5, [9 << 20, 1, 1], [
        ["connect", 1, 4096], ["read", 1, 100], ["connect", 2, 0],
        ["wait", stall], ["read", 1, 100], ["wait", 1]]]
    parts = [[paused]] + [cases[i::6] for i in range(6)]
    c.parallel(*[lambda p=p: c.validate(
        "ServerTrace", c.drive("server", data=p)) for p in parts], n=7)


# --------------------------------------------------------------------------
# Simulator: memory regions (Regions.tla, RegionsTrace.tla)

SIM_ASSUMES = ["py65 (its memory and its processor) is as installed"]
NAMES = ["Kilo", "Lima", "Mike", "Oscar", "Quebec"]


def spread(r, n):
    """n real addresses in order, many of them neighbours."""
    while True:
        at = r.choice([0, r.randrange(0x10000), 0xfff0 - n, 0xc000 - n])
        out = []
        for _ in range(n):
            out.append(at)
            at += r.choice([1, 1, 1, 2, 3, r.randrange(1, 600),
                            r.randrange(1, 9000)])
        if r.random() < .3:
            out[-1] = 0xffff
        if len(set(out)) == n and out == sorted(out) and out[-1] <= 0xffff:
            return out


# where code can be: (lo, hi, entry points); no region in between
UNDECLARED = [(0x300, 0x3ff), (0x800, 0x1fff), (0x3000, 0x3fff),
              (0x5000, 0xbfff), (0xc800, 0xcfff)]
DECLARED = [(0x20, 0xff), (0x400, 0x7ff), (0x2000, 0x2fff), (0x4000, 0x4fff),
            (0xc100, 0xc1ff), (0xc300, 0xc3ff), (0xc700, 0xc7ff),
            (0xd000, 0xffff)]
ENTRIES = [0xf3e2, 0xfca8, 0xfded, 0xfe89]


def sim_program(r, k):
    """A program of blocks that call and jump to one another."""
    used, load, look = set(), [], set()

    def area(a):
        return next((x for x in DECLARED if x[0] <= a <= x[1]), None)

    def room(a, n):
        return not any(x in used for x in range(a - 1, a + n + 2))

    def place(n, want=None):
        for _ in range(1000):
            kind = want or r.choice("uudde")
            if kind == "e":
                a = r.choice(ENTRIES)
            else:
                lo, hi = r.choice(UNDECLARED if kind == "u" else DECLARED)
                a = r.choice([lo, hi - n, r.randrange(lo, hi - n)])
            if a + n < 0x10000 and room(a, n):
                return a
        raise ValueError

    nsub = r.randrange(1, 5)
    sizes = [60] + [24] * nsub
    at = []
    for i, n in enumerate(sizes):
        a = place(n, "u" if i == 0 else None)
        used.update(range(a, a + n))
        at.append(a)
    touch = set()

    def data():
        for _ in range(1000):
            lo, hi = r.choice(DECLARED[1:3] + UNDECLARED
                              if r.random() < .9 else DECLARED)
            a = r.choice([lo, hi, r.randrange(lo, hi)])
            if a not in used and not 0x100 <= a < 0x200:
                touch.add(a)
                return a

    def ab(op, a):
        return [op, a & 255, a >> 8]

    for i, a in enumerate(at):
        code = []
        later = at[i + 1:]
        for _ in range(r.randrange(1, 9 if i == 0 else 4)):
            x = r.random()
            if x < .25:
                code += [0xa9, r.randrange(256)]
            elif x < .5:
                code += ab(0x8d, data())
            elif x < .65:
                code += ab(0xad, data())
            elif x < .75:
                code += [0xea]
            elif later:
                to = r.choice(later)
                # what may be entered from a region other than by returning
                # is another declared one
                if not area(a) or area(to):
                    code += ab(0x20, to)
        if i == 0:
            end = a + len(code)
            code += ab(0x4c, end)
        elif later and r.random() < .2 and (not area(a) or area(later[0])):
            code += ab(0x4c, later[0])
        else:
            code += [0x60]
        for j, b in enumerate(code):
            load.append([a + j, b])
    look = sorted(touch | {a for a, _ in load})
    return dict(start=at[0], load=load, look=look)


@check("C31")
def c31(c):
    c.assumptions = SIM_ASSUMES
    c.mc("MC_Regions", pick("MC_Regions.cfg", "MC_RegionsDeep.cfg"),
         min_states=1000, timeout=900)
    r = rng("regions")
    cases = []
    for h in c.generate("Gen_Regions", "Gen_Regions.cfg",
                        num=pick(120, 1500), depth=100):
        cases.append(dict(
            # regions may share a name
            ops=h, real=spread(r, 12),
            names=r.choice([r.sample(NAMES, 5), r.choices(NAMES[:3], k=5)]),
            gives=[r.choice([-1, -1, 0, r.randrange(256)])
                   for _ in range(5)]))
    progs = [sim_program(r, k) for k in range(pick(120, 1500))]
    parts = [dict(layouts=cases[i::4], programs=progs[i::4],
                  map=int(i == 0), seed=SEED) for i in range(4)]
    c.parallel(*[lambda p=p: c.validate(
        "RegionsTrace", c.drive("regions", data=p)) for p in parts])


# --------------------------------------------------------------------------
# Simulator: the I/O page (SimIO.tla, Card.tla, SimTrace.tla)

def simio(c, cases):
    parts = [cases[i::4] for i in range(4)]
    c.parallel(*[lambda p=p: c.validate(
        "SimTrace", c.drive("simio", data=p)) for p in parts])


@check("C32")
def c32(c):
    c.assumptions = SIM_ASSUMES
    c.mc("MC_SimIO", pick("MC_SimIO.cfg", "MC_SimIODeep.cfg"), min_states=100)
    r = rng("simio")
    cases = [dict(cpu=k % 3 == 0, ops=h) for k, h in enumerate(c.generate(
        "Gen_SimIO", "Gen_Switches.cfg", num=pick(60, 800), depth=200))]
    cases += [dict(cpu=k % 3 == 0, ops=h) for k, h in enumerate(c.generate(
        "Gen_SimIO", "Gen_Card.cfg", num=pick(10, 100), depth=200))]
    # every access there is, from some state, and its neighbours in memory
    every = [(a, w) for a in range(256) for w in (0, 1)]
    every += [(a, 1) for a in range(0xbf00, 0xc000, 5)]
    every += [(a, w) for a in (*range(256, 512, 7), 0x400, 0x450, 0x4050,
                               0x451, 0xc100, 0xc150, 0xc251, 0xd051, 0xe057)
              for w in (0, 1)]
    for rep in range(pick(2, 12)):
        r.shuffle(every)
        for i in range(0, len(every), 32):
            ops = []
            for a, w in every[i:i + 32]:
                for _ in range(r.randrange(3)):
                    ops.append([r.choice([*range(12, 16), *range(80, 88)]),
                                1, r.randrange(256)])
                ops += [[-1, 0, 0],
                        [a, w, r.choice([0, 1, 3, r.randrange(4)])],
                        [-1, 0, 0]]
            cases.append(dict(cpu=r.randrange(2), ops=ops))
    simio(c, cases)


@check("C33")
def c33(c):
    c.assumptions = SIM_ASSUMES + [
        "the card is used in indirect mode with auto-increment, at addresses "
        "below 32 KB"]
    c.inductive("CardInd")
    c.mc("MC_Card", pick("MC_Card.cfg", "MC_CardDeep.cfg"), min_states=1000)
    r = rng("card")
    cases = [dict(cpu=k % 3 == 0, ops=h) for k, h in enumerate(c.generate(
        "Gen_SimIO", "Gen_Card.cfg", num=pick(120, 1500), depth=200))]
    # long walks, over every boundary
    for start, n in ((0x3ff0, 0x2020), (0x5ff8, 0x2008 - 0x10), (0x7f80, 0x81),
                     (0x0800, 0x900), (0x7000, 0x1001)):
        n = min(n, pick(1200, 1 << 20))
        seek = [[0x95, 1, start >> 8], [0x96, 1, start & 255]]
        ops = [[0x94, 1, 3], *seek]
        ops += [[0x97, 1, r.choice([3, 2, 3])
                 if (start + i) & 0x7fff < 48 else r.randrange(256)]
                for i in range(n)]
        ops += [[0x94, 1, 3], *seek] + [[0x97, 0, 0]] * n
        cases.append(dict(cpu=0, ops=ops))
    simio(c, cases)


# --------------------------------------------------------------------------
# All of it together (EndToEnd.tla)

def whole(c, num):
    r = rng("C35")
    jobs = []
    for i in range(num):
        opt = dict(
            mode=("HGR", "DHGR")[i % 2], palette=r.choice(["NTSC", "IIGS"]),
            rate=r.choice([14700, 14700, 11025]), pictures=r.choice([2, 3, 4]),
            fps=r.choice(["30/1", "24/1", "60/1", "30000/1001"]),
            every=r.choice([1, 1, 2]), salt=r.randrange(10 ** 9),
            keys=r.choice([0, .1, .5]) if i > 1 else .3,
            arrive=r.choice([[2048], [0, 1, 1460, 8192],
                             [0, 0, 700, 2047, 2049], [8192]]))
        jobs.append(lambda opt=opt: c.explore(
            "EndToEnd", {"PLAYER": c.drive("e2e", data=opt)},
            reach=["header", "term", "quitting", "done"]
            + (["pause", "resume"] if opt["keys"] == .3 else []),
            timeout=800, workers="1"))
    return jobs


@check("C35")
def c35(c):
    c.assumptions = PLAYER_ASSUMES + STREAM_ASSUMES
    c.parallel(lambda: c.mc("MC_System", pick("MC_System.cfg", "MC_SystemT.cfg"),
                            timeout=800),
               *whole(c, pick(4, 16)))

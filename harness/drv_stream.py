"""Transcodes whole movies and records the streams, byte for byte.

The movies are given as a list of dicts in the file VERIF_DATA:
  kind      sparse: frames that differ in one byte, which identifies the frame
            (long streams, many frames); busy: frames with picture content;
            still: frames that differ little, and often only in bytes that
            look the same on screen, so that the encoder is mostly idle
  samples   audio samples; frames: video frames (default: plenty)
  mode, rate, fps, skip, palette, cap, track (watch the encoder's memory)
"""

import fractions
import json
import os
import random

import env


def player_symbols():
    """Operation addresses, by name, from the player's debug file."""
    syms = {}
    with open(os.path.join(env.REPO, "player", "iivision.dbg")) as f:
        for line in f:
            if line.startswith("sym\t"):
                kv = dict(x.split("=", 1) for x in line.strip()[4:].split(","))
                name = kv["name"].strip('"')
                if name.startswith("op_"):
                    syms[name] = int(kv["val"], 16)
    return syms


def symbols_event(syms):
    return dict(
        ticks=[syms.get("op_tick_%d_page_%d" % (t, p), -1)
               for p in range(32, 64) for t in range(4, 68, 2)],
        ack=syms["op_ack"], term=syms["op_terminate"])


def holes():
    return [o for o in range(256) if o % 128 >= 120]


def sparse_ids(dual):
    """Byte values that look different from each other at (0, 0)."""
    import numpy as np
    import palette
    import screen
    cls = screen.DHGRBitmap if dual else screen.HGRBitmap
    ids = []

    def look(v, other):
        m = screen.MemoryMap(1)
        m.page_offset[0, 0] = v
        if not dual:
            return cls(palette.Palette.IIGS, m)
        a = screen.MemoryMap(1)
        a.page_offset[0, 0] = other
        return cls(main_memory=m, aux_memory=a, palette=palette.Palette.IIGS)

    def differ(v, w):
        for aux in ([False, True] if dual else [False]):
            for o in ((v, w) if dual else (0,)):
                s = look(o, v) if aux else look(v, o)
                t = look(w, w)
                if t.diff_weights(s, aux)[0, 0] <= 0:
                    return False
        return True

    for v in range(5, 128, 3):
        if all(differ(v, w) and differ(w, v) for w in ids) and \
                differ(0, v):
            ids.append(v)
        if len(ids) == 9:
            break
    assert len(ids) >= 5, ids
    return ids


def main(t, args):
    with open(os.environ["VERIF_DATA"]) as f:
        movies = json.load(f)
    env.setup()
    with env.quiet():
        import movie
        env.install_tables("full")
    t.emit("Sym", **symbols_event(player_symbols()))
    # those with the same tables together
    for i, opt in sorted(enumerate(movies), key=lambda x: setting(x[1])[3:]):
        one(t, i, opt)


def setting(opt):
    """Random generator, seeds, mode and palette of a movie."""
    rng = random.Random(json.dumps(opt, sort_keys=True))
    seeds = rng.randrange(2 ** 31), rng.randrange(2 ** 31)
    mode = opt.get("mode") or rng.choice(["HGR", "DHGR"])
    pal = opt.get("palette") or ("IIGS" if opt["kind"] == "sparse" else
                                 rng.choice(["IIGS", "NTSC"]))
    return rng, *seeds, mode, pal


def one(t, index, opt):
    import movie
    import numpy as np
    import palette
    import video_mode
    kind = opt["kind"]
    rng, s1, s2, mode, pal = setting(opt)
    np.random.seed(s1)
    random.seed(s2)
    dual = mode == "DHGR"
    rate = int(opt.get("rate", 14700))
    num, den = (int(x) for x in opt.get("fps", "30/1").split("/"))
    skip = int(opt.get("skip", 1))
    nsamp = int(opt["samples"])
    nframes = int(opt.get("frames", nsamp * num // (den * rate) + 5))
    cap = fractions.Fraction(opt.get("cap", "0"))
    track = int(opt.get("track", kind != "sparse"))

    ids = []
    zero = bytes(8192)
    if kind == "sparse":
        names = sparse_ids(dual)
        prev = None
        for i in range(nframes):
            v = rng.choice([n for n in names if n != prev])
            # frames that are skipped may repeat; used neighbours may not
            if i % skip == 0:
                prev = v
            ids.append(v)
        cache = {}

        def frame(i):
            v = ids[i]
            if v not in cache:
                cache[v] = bytes([v]) + zero[1:]
            return cache[v], cache[v]
    elif kind == "still":
        frame = still_frames(rng, nframes, dual)
    else:
        frame = busy_frames(rng, nframes, dual)

    vid = env.FakeVideo(frame, fps="%d/%d" % (num, den), count=nframes)
    vid.install()
    levels = [rng.randrange(-15, 17) for _ in range(nsamp)]
    name = "clip%d.wav" % index
    env.write_wav(name, [max(-32768, min(32767, v * 1024))
                               for v in levels], rate)

    with env.quiet():
        m = movie.Movie(
            name, every_n_video_frames=skip, audio_bitrate=rate,
            audio_normalization=1.0, max_bytes_out=float(cap),
            video_mode=video_mode.VideoMode[mode],
            palette=palette.Palette[pal])
    t.emit("Movie", line=t.n + 1, mode=int(dual), num=num, den=den, rate=rate, skip=skip,
           levels=levels, nframes=nframes, cap=int(-(-cap // 1)), ids=ids,
           track=bool(track), pal=pal)

    maps = [m.video.memory_map]
    if dual:
        maps.append(m.video.aux_memory_map)
    shadow = [x.page_offset.copy() for x in maps]

    def diff():
        out = []
        if not track:
            return out
        for b, x in enumerate(maps):
            if x.page_offset.tobytes() == shadow[b].tobytes():
                continue
            for p, o in zip(*np.nonzero(x.page_offset != shadow[b])):
                v = int(x.page_offset[p, o])
                out.append([b, int(p), int(o), v])
                shadow[b][p, o] = v
        return out

    pend = {"d": None}
    buf = []

    def flush():
        if pend["d"] is not None:
            t.emit("Op", d=pend["d"], b=list(buf))
            del buf[:]

    def spy(ops):
        for op in ops:
            flush()
            pend["d"] = diff()
            yield op

    bound = 2048 * (7 * (nsamp + 400) // 2044 + 4)
    total = 0
    runaway = False
    with env.quiet():
        for b in m.emit_stream(spy(m.encode())):
            buf.append(int(b))
            total += 1
            if total > bound:
                runaway = True
                break
    flush()
    t.emit("Runaway" if runaway else "End", total=total)


def busy_frames(rng, nframes, dual):
    """Pictures with runs, noise and small moving parts."""
    top = 128 if dual else 256
    frames = []
    base = [bytearray(8192), bytearray(8192)]
    hole = set(holes())
    for i in range(nframes):
        if i % 4 == 0:
            for m in base:
                style = rng.randrange(3)
                for p in range(32):
                    v = rng.randrange(top)
                    for o in range(256):
                        if o in hole:
                            continue
                        if style == 0 or rng.random() < .1:
                            v = rng.randrange(top)
                        if style == 2 and rng.random() < .5:
                            v = rng.choice([0, 0x7f, 0x2a, 0x55])
                        m[p * 256 + o] = v % top
        else:
            for m in base:
                p0 = rng.randrange(30)
                for p in range(p0, p0 + 3):
                    for o in range(40, 90):
                        m[p * 256 + o] = rng.randrange(top)
        frames.append((bytes(base[0]), bytes(base[1])))
    return frames


def still_frames(rng, nframes, dual):
    """Small pictures; in hi-res, black with and without the palette bit."""
    frames = []
    greys = [0x55, 0x2a, 0] if dual else [0x00, 0x80, 0x7f, 0xff]
    while len(frames) < nframes:
        base = [bytearray(8192), bytearray(8192)]
        for m in base:
            for o in range(rng.choice([3, 6, 20])):
                m[o] = rng.choice(greys + greys + [rng.randrange(128)])
        alike = [[rng.choice(greys)] for m in base]
        if not dual:
            alike[0] = [0x00, 0x80]
            base[0][1] = rng.choice([0x00, 0x80, 0xff])
        for _ in range(rng.choice([3, 4, 5])):
            for aux, vs in enumerate(alike):
                base[aux][0] = rng.choice(vs)
            frames.append((bytes(base[0]), bytes(base[1])))
    return frames

"""Runs the video encoder through schedules of frames, banks and work.

VERIF_DATA: list of {dual, pal, seed, ops}; ops from spec/Gen_Encoder.tla:
target KIND, pass BANK, work N, settle.
"""

import json
import os
import random

import env

VISIBLE = [o for o in range(256) if o % 128 < 120]


def main(t, args):
    with open(os.environ["VERIF_DATA"]) as f:
        cases = json.load(f)
    env.setup()
    with env.quiet():
        import palette
        env.install_tables("full")
    for c in cases:
        with env.quiet():
            one(t, c, palette)


def new_target(r, kind, old, older, dual):
    """Memory of the next frame: a pair of 32 lists of 256 bytes."""
    top = 128 if dual else 256
    new = [[list(p) for p in m] for m in old]
    if kind == "same":
        return new
    if kind == "back":
        return [[list(p) for p in m] for m in older]
    greys = [0x55, 0x2a, 0x00, 0x7f]
    if not dual:
        greys += [0x80, 0xff, 0xd5, 0xaa]
    if kind == "stark":
        # much to do, all of it badly wrong
        for m in (new if dual else new[:1]):
            for p in r.sample(range(32), 2):
                old = [0x7f - (v & 0x7f) for v in m[p]]
                for o in VISIBLE:
                    m[p][o] = r.choice([old[o], old[o], r.randrange(top)])
        return new
    if kind == "close":
        # a byte, and another that looks nearly the same
        for p in r.sample(range(32), 12):
            at = r.choice([0, 40, 80, 128, 168, 200])
            for m in (new if dual else new[:1]):
                v, bit = r.randrange(top), 1 << r.randrange(7)
                for o in range(at, at + 40):
                    m[p][o] = v
                for o in r.sample(range(at + 1, at + 39), 6):
                    m[p][o] = v ^ bit
        return new
    for m in (new if dual else new[:1]):
        for p in r.sample(range(32), r.choice([1, 1, 2])):
            if kind == "sparse":
                for o in r.sample(VISIBLE, 30):
                    m[p][o] = r.randrange(top)
            elif kind == "runs":
                o = 0
                while o < 256:
                    n, v = r.choice([1, 3, 8, 20]), r.choice(
                        [r.randrange(top), r.choice(greys)])
                    if r.random() < .5:
                        for i in range(o, min(o + n, 256)):
                            if i in VISIBLE:
                                m[p][i] = v
                    o += n
            elif kind == "alike":
                for o in r.sample(VISIBLE, 40):
                    m[p][o] = r.choice(greys)
            elif kind == "near":
                for o in r.sample(VISIBLE, 40):
                    m[p][o] ^= 1 << r.randrange(7)
            else:
                for o in (0, 1, 2, 118, 119, 128, 129, 246, 247):
                    m[p][o] = r.randrange(top)
    return new


def one(t, case, palette):
    import frame_grabber
    import numpy as np
    import screen
    import video
    import video_mode
    r = random.Random(case["seed"])
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    dual = case["dual"]
    mode = video_mode.VideoMode.DHGR if dual else video_mode.VideoMode.HGR
    pal = palette.Palette[case["pal"]]
    t.emit("Encoder", dual=dual, pal=case["pal"],
           cost=env.costs(palette.PALETTES[pal]))
    fg = frame_grabber.FrameGrabber(mode=mode)
    fg.input_frame_rate = 30
    v = video.Video(fg, ticks_per_second=14700., mode=mode, palette=pal)

    cur = [[[0] * 256 for _ in range(32)] for _ in (0, 1)]
    older = cur
    state = {"seq": None, "bm": None}

    def bitmap(mem):
        maps = []
        for m in mem:
            mm = screen.MemoryMap(screen_page=1)
            mm.page_offset[:] = np.array(m, dtype=np.uint8)
            maps.append(mm)
        if dual:
            return screen.DHGRBitmap(main_memory=maps[0], aux_memory=maps[1],
                                     palette=pal)
        return screen.HGRBitmap(main_memory=maps[0], palette=pal)

    def begin(aux):
        t.emit("Pass", aux=aux)
        state["seq"] = v.encode_frame(state["bm"], is_aux=bool(aux))

    clock = {"frame": 0}

    def frames(n):
        """The video's clock runs on, as the movie's loop makes it."""
        for _ in range(n):
            if hasattr(v, "tick"):
                v.tick(490 * clock["frame"])
            clock["frame"] += 1

    def work(n):
        for _ in range(n):
            try:
                page, content, offs = next(state["seq"])
            except StopIteration:
                t.emit("RanDry")
                raise
            t.emit("Op", page=int(page), content=int(content),
                   offs=[int(o) for o in offs])

    def idle(n):
        """Many operations when there is nothing to do."""
        ops = set()
        for i in range(n):
            try:
                page, content, offs = next(state["seq"])
            except (StopIteration, RuntimeError):
                t.emit("RanDry")
                return
            op = (int(page), int(content), *map(int, offs))
            if op not in ops and len(ops) < 50:
                ops.add(op)
        t.emit("Idle", n=n, ops=sorted(ops))

    def differences():
        return sum(a != b
                   for bank, m in zip((v.memory_map,
                                       getattr(v, "aux_memory_map", None)),
                                      cur) if bank is not None
                   for p, q in zip(bank.page_offset.tolist(), m)
                   for a, b in zip(p, q))

    for op in case["ops"]:
        if op[0] == "target":
            if r.random() < .4:
                # to just before a round number of frames
                k = r.choice([10, 24, 25, 30, 60, 64, 100, 256, 1000, 1024])
                frames(k - clock["frame"] % k - r.choice([0, 1, 2]))
            else:
                frames(1)
            new = new_target(r, op[1], cur, older, dual)
            t.emit("Target", pages=[
                [b, p, new[b][p]] for b in (0, 1) for p in range(32)
                if new[b][p] != cur[b][p]])
            older, cur = cur, new
            state["bm"] = bitmap(cur)
        elif op[0] == "pass":
            begin(op[1])
        elif op[0] == "work":
            work(op[1])
        elif op[0] == "linger":
            for _ in range(op[2]):
                frames(1)
                begin(op[1])
                work(op[3])
        else:
            # until three rounds in a row found nothing to change
            quiet = 0
            for _ in range(12):
                n = differences()
                before = [m.page_offset.copy() for m in maps(v)]
                for aux in range(dual + 1):
                    # neighbours of a wrong byte may look wrong too
                    begin(aux)
                    work(3 * n + 10)
                    t.emit("Drained")
                same = all((a == m.page_offset).all()
                           for a, m in zip(before, maps(v)))
                quiet = quiet + 1 if same else 0
                if quiet == 2:
                    break
            t.emit("Settled", rounds=_ + 1)
    if case.get("idle"):
        idle(case["idle"])


def maps(v):
    return [v.memory_map] + (
        [v.aux_memory_map] if hasattr(v, "aux_memory_map") else [])

"""The whole way: a movie is converted, served, and given to the player.

Prints one JSON object: the assembled player, the bytes a client of the server
received, and what went into the transcoder (spec/EndToEnd.tla).
"""

import json
import os
import random
import runpy
import shutil
import sys

import env
import player
from drv_player import addresses
from drv_server import Client, Server
from drv_stream import holes


def main(t, args):
    with open(os.environ["VERIF_DATA"]) as f:
        opt = json.load(f)
    rng = random.Random(json.dumps(opt, sort_keys=True))
    env.setup()
    p = player.Player()
    ops = player.operations(p.labels)
    dual = opt["mode"] == "DHGR"
    rate = opt["rate"]
    num, den = (int(x) for x in opt["fps"].split("/"))
    pics, alike, changes = pictures(rng, opt["pictures"], dual)
    nsamp = -(-rate * den * len(pics) * opt["every"] // num) + changes + 700
    levels = [rng.randrange(-15, 17) for _ in range(nsamp)]

    with env.quiet():
        env.install_tables("full")
    vid = env.FakeVideo(
        lambda i: pics[min(i // opt["every"], len(pics) - 1)],
        fps=opt["fps"], count=nsamp * num // (den * rate) + 9)
    vid.install()
    os.chdir(env.SCRATCH)
    env.write_wav("clip.wav", [max(-32768, min(32767, v * 1024))
                               for v in levels], rate)
    program = os.path.join(env.REPO, "transcoder", "main.py")
    line = ["clip.wav", "--audio_bitrate", str(rate),
            "--audio_normalization", "1.0",
            "--every_n_video_frames", str(opt["every"]),
            "--video_mode", opt["mode"], "--palette", opt["palette"]]
    with env.quiet():
        sys.argv = [program] + line
        try:
            runpy.run_path(program, run_name="__main__")
        except SystemExit as e:
            if e.code not in (None, 0):
                raise

    srv = Server(os.path.join(env.SCRATCH, "clip.a2m"))
    data = b""
    if srv.first():
        x = Client(srv.port, 0)
        x.read(1 << 30, 20)
        data = bytes(x.data)
        x.s.close()
    srv.stop()
    srv.release()

    banks = range(1 + dual)
    may = [[sorted({(k, q[b][o]) for k, q in enumerate(pics)})
            for o in range(8192)] for b in banks]
    t.f.write(json.dumps(dict(
        image=list(p.image), origin=p.origin, entry=p.origin,
        ticks=ops["ticks"], ack=ops["ack"], term=ops["term"],
        stream=list(data), **addresses(p), page2=False,
        regs=[rng.randrange(256) for _ in range(3)],
        arrive=[rng.choice(opt["arrive"]) for _ in range(97)],
        keys=[rng.random() < opt["keys"] for _ in range(89)],
        mode=int(dual), audio=[2 * v + 34 for v in levels],
        num=num, den=rate * den, every=opt["every"], may=may,
        last=[list(pics[-1][b]) for b in banks],
        strict=alike, hole=sorted(holes()))) + "\n")


def pictures(rng, count, dual):
    """Pictures that change here and there; where they must come out exactly;
    and a bound on how many operations that takes.

    Bytes that only ever are all dark or all light look different whatever is
    next to them; others may look the same (as black with and without the
    palette bit does) and then need not be sent.
    """
    free = [o for o in range(8192) if o % 256 not in set(holes())]
    banks = range(1 + dual)
    plain, noisy = [], []
    for b in banks:
        some = rng.sample(free, rng.choice([100, 160]))
        # some of them close together, at the ends of pages and of the screen
        some += [0, 0x1ff7, 0x1f80 + rng.randrange(100)]
        at = rng.choice([o for o in free if o % 128 < 80])
        some += [at + i for i in range(30) if at % 128 + i < 120]
        some = [o for o in sorted(set(some)) if o % 256 not in set(holes())]
        odd = set(rng.sample(some, len(some) // 3))
        noisy.append(odd)
        plain.append([o for o in some if o not in odd])
    out = []
    cur = [bytearray(8192) for _ in banks]
    changes = 0
    for k in range(count):
        for b in banks:
            for o in plain[b]:
                if rng.random() < .6:
                    cur[b][o] ^= 0x7f
                    changes += 1
            for o in noisy[b]:
                if rng.random() < .4:
                    cur[b][o] = rng.randrange(128 if dual else 256)
                    changes += 1
        out.append(tuple(bytes(cur[b % len(cur)]) for b in (0, 1)))
    return out, [list(x) for x in plain], changes * (1 + dual)

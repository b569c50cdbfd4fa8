"""Stimuli for the specification's model of the player's machine code.

ops N: every operation N times, on chosen and random operands.
"""

import json
import os
import random
import runpy
import socket
import sys

import env
import player


def program(t, p, **kw):
    ops = player.operations(p.labels)
    t.emit("Program", image=list(p.image), origin=p.origin,
           ticks=ops["ticks"], ack=ops["ack"], term=ops["term"],
           nop=ops["nop"], **kw)


def main(t, args):
    rng = random.Random("player%s %s" % (os.environ["VERIF_SEED"], args))
    env.setup()
    p = player.Player()
    if args[0] == "ops":
        program(t, p)
        cpu(t, rng, int(args[2]))
        ops(t, rng, int(args[1]))
    if args[0] == "code":
        code(t, p)


def server_port():
    """The port the server listens on unless told otherwise."""
    class Bound(BaseException):
        pass

    def bind(_, address):
        raise Bound(address[1])

    program = os.path.join(env.REPO, "server", "server.py")
    kept = sys.argv, socket.socket.__dict__.get("bind")
    sys.argv, socket.socket.bind = [program, __file__], bind
    try:
        with env.quiet():
            runpy.run_path(program, run_name="__main__")
    except Bound as e:
        return e.args[0]
    finally:
        sys.argv = kept[0]
        if kept[1]:
            socket.socket.bind = kept[1]
        else:
            del socket.socket.bind
    return 0        # it does not listen at all


def code(t, p):
    """The program and an environment for it (spec/PlayerCode.tla)."""
    with open(os.environ["VERIF_DATA"]) as f:
        opt = json.load(f)
    rng = random.Random(json.dumps(opt, sort_keys=True))
    ops = player.operations(p.labels)
    if "stream" in opt:
        with open(opt["stream"], "rb") as f:
            stream = list(f.read())
    else:
        stream = synthetic(rng, ops, opt)
    t.f.write(json.dumps(dict(
        image=list(p.image), origin=p.origin, entry=p.origin,
        ticks=ops["ticks"], ack=ops["ack"], term=ops["term"],
        stream=stream, levels=opt["levels"], status=opt["status"],
        openfails=opt.get("openfails", False), page2=False, early=opt.get("early", False),
        regs=[rng.randrange(256) for _ in range(3)],
        **addresses(p))) + "\n")


def addresses(p):
    """What the card is to be programmed with."""
    return dict(port=server_port(), mac=table(p, "MAC", 6),
                own=table(p, "SRCADDR", 4), server=table(p, "FADDR", 4))


def table(p, label, n):
    """The bytes the player has at a label, none if there is no such label."""
    at = p.labels.get(label)
    return [] if at is None else list(p.image[at - p.origin:][:n])


def synthetic(rng, ops, opt):
    """A stream of random operations, laid out as Mux.tla says."""
    dual = opt["mode"]
    some = rng.sample(ops["ticks"], opt.get("variety", 40))
    out = [255] * 6 + [dual]
    bank = 0
    left = opt["ops"]
    while left:
        if len(out) % 2048 == 2044:
            bank = 1 - bank if dual else 0
            out += [ops["ack"] >> 8, ops["ack"] & 255, 0x54 + bank, 255]
            continue
        a = rng.choice(some)[2]
        out += [a >> 8, a & 255] + [rng.randrange(256) for _ in range(5)]
        left -= 1
    if len(out) % 2048 == 2044:
        bank = 1 - bank if dual else 0
        out += [ops["ack"] >> 8, ops["ack"] & 255, 0x54 + bank, 255]
    out += [ops["term"] >> 8, ops["term"] & 255]
    return out + [0] * (-len(out) % 2048)


def ops(t, rng, n):
    every = [[a, b] for a in range(4, 68, 2) for b in range(32, 64)]
    edge = [0, 1, 119, 127, 128, 247, 254, 255]

    def byte():
        return rng.choice(edge) if rng.random() < .3 else rng.randrange(256)

    for k in range(n):
        nexts = rng.sample(every, len(every))
        cases = rng.sample(every, len(every))
        for op, nxt in zip(cases, nexts):
            offs = [byte() for _ in range(4)]
            if rng.random() < .2:
                offs = [offs[0]] * 4
            # the last few positions are in and over the end of the buffer
            at = 0x6000 + (rng.randrange(8192) if rng.random() < .7
                           else rng.randrange(8180, 8192))
            t.emit("Op", op=op, next=nxt, c=byte(), offs=offs, a=byte(),
                   y=byte(), f=rng.randrange(256) & ~0x18, at=at,
                   aux=bool(rng.randrange(2)))


def cpu(t, rng, n):
    """Random instructions, executed by py65."""
    from py65.devices.mpu6502 import MPU
    ref = MPU()
    codes = [i for i in range(256) if ref.disassemble[i][0] != "???"
             and ref.disassemble[i][0] != "BRK"]
    k = 0
    while k < n:
        op = codes[k % len(codes)]
        m = MPU(memory=Rec(rng))
        pc = rng.choice([0x1000, 0x10f0, 0x10fd]) + rng.randrange(16)
        m.memory.poke(pc, op)
        # stay away from I/O and the screen
        hi = rng.choice([0x03, 0x05, 0x60, 0xb0])
        m.memory.poke(pc + 1, rng.randrange(256))
        m.memory.poke(pc + 2, hi)
        if ref.disassemble[op][1] in ("inx", "iny"):
            for z in range(256):
                m.memory.poke(z, rng.choice([0x03, 0x05, 0x60, 0xb0]))
        if ref.disassemble[op][1] == "ind":
            m.memory.poke(pc + 1, rng.choice([255, rng.randrange(256)]))
        m.pc = pc
        m.a, m.x, m.y, m.sp = (rng.randrange(256) for _ in range(4))
        m.p = (rng.randrange(256) & ~0x08) | 0x30
        first = (m.pc, m.a, m.x, m.y, m.sp, m.p)
        m.step()
        if any(0x2000 <= a < 0x4000 or 0xbf00 <= a for a in m.memory.seen()):
            continue
        t.emit("Cpu", op=op, pc=first[0], a=first[1], x=first[2], y=first[3],
               sp=first[4], p=first[5], mem=m.memory.before(),
               res=[m.pc, m.a, m.x, m.y, m.sp, (m.p & ~0x10) | 0x20,
                    m.processorCycles],
               after=m.memory.after())
        k += 1


class Rec:
    """Memory that makes itself up as it is read."""

    def __init__(self, rng):
        self.first = {}
        self.now = {}
        self.rng = rng

    def poke(self, a, v):
        self.first[a] = self.now[a] = v

    def __getitem__(self, a):
        if a not in self.now:
            self.poke(a, self.rng.randrange(256))
        return self.now[a]

    def __setitem__(self, a, v):
        self.now[a] = v

    def seen(self):
        return self.now

    def before(self):
        return [[a, v] for a, v in self.first.items()]

    def after(self):
        return [[a, v] for a, v in self.now.items()]

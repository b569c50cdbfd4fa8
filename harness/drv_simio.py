"""Replays accesses to the simulated Apple II's I/O page.

VERIF_DATA: list of histories; an access is [offset, write, value], an offset
of -1 reads every status address, and one of 256 and more is an address
elsewhere.  Some histories go through the simulated processor.
"""

import json
import os
import re

import env
from drv_regions import apple

STATUS = list(range(0x13, 0x20))


def main(t, args):
    with open(os.environ["VERIF_DATA"]) as f:
        data = json.load(f)
    env.setup("simulator")
    with env.quiet():
        import machine
        import apple2
        import uthernet
    for h in data:
        with env.quiet():
            a2 = apple(apple2, uthernet)
        t.emit("New")
        for a, wr, v in h["ops"]:
            todo = [(s, 0, 0) for s in STATUS] if a < 0 else [(a, wr, v)]
            for x in todo:
                access(t, machine, a2, h["cpu"], *x)


def access(t, machine, a2, cpu, a, wr, v):
    addr = 0xc000 + a if a < 256 else a
    out, val, text = "ok", 0, ""
    with env.quiet():
        try:
            if cpu:
                a2.memory.write(0x900, [0x8d if wr else 0xad,
                                        addr & 255, addr >> 8])
                a2.cpu.pc = 0x900
                a2.cpu.a = v
                a2.cpu.step()
                val = a2.cpu.a
            elif wr:
                a2.memory[addr] = v
            else:
                val = a2.memory[addr]
        except machine.TrapException as e:
            out, text = "trap", str(e)
        except NotImplementedError as e:
            out = "notimpl"
        except Exception as e:
            out, text = "exc", env.exc_name(e)
    if a >= 256:
        t.emit("Elsewhere", a=a)
        return
    t.emit("Acc", a=a, wr=wr, v=v, out=out,
           val=val if isinstance(val, int) else -1, text=text,
           hexes=[int(x, 16) for x in
                  re.findall(r"(?<![0-9A-Za-z])[$x]?([0-9A-Fa-f]{4})"
                             r"(?![0-9A-Za-z])", text)])

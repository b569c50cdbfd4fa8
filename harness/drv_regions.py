"""Drives the simulator's memory manager, memory map and programs.

VERIF_DATA: {"layouts": histories over abstract addresses, with the real ones
they stand for; "map": 0/1; "programs": [{start, load}]}.
"""

import json
import os
import re

import env


def raised(e, names):
    """What an exception of the code says; others are not answers."""
    if type(e).__module__ == "builtins":
        raise e
    text = str(e)
    return dict(out="raised", text=text,
                names=[n for n in names if n in text],
                hexes=[int(h, 16) for h in
                       re.findall(r"(?<![0-9A-Za-z])[$x]?([0-9A-Fa-f]{4})"
                                  r"(?![0-9A-Za-z])", text)])


OK = dict(out="ok", text="", names=[], hexes=[])


class Cpu:
    pc = 0


def layouts(t, memory, cases):
    for case in cases:
        real, ops = case["real"], case["ops"]
        _, lay, content = ops[0]
        seen, handled, regions, spec = [], [], [], []
        for i, r in enumerate(lay):
            n = i + 1
            gives = case["gives"][i] if r["rint"] else -1

            def on_read(addr, n=n, gives=gives):
                seen.append([n, addr])
                return gives if gives >= 0 else None

            def on_write(addr, value, n=n):
                seen.append([n, addr, value])

            def handler(a):
                def f(cpu):
                    handled.append(a)
                return f

            kw = {}
            if r["rint"]:
                kw["read_interceptor"] = on_read
            if r["wint"]:
                kw["write_interceptor"] = on_write
            entries = [real[a] for a in r["entries"]]
            if entries:
                kw["entrypoints"] = {a: handler(a) for a in entries}
            if not r["rw"]:
                kw["writable"] = False
            name = case["names"][i]
            regions.append(memory.MemoryRegion(
                name, real[r["lo"]], real[r["hi"]], **kw))
            spec.append(dict(name=name, lo=real[r["lo"]], hi=real[r["hi"]],
                             rw=int(r["rw"]), rint=int(r["rint"]),
                             wint=int(r["wint"]), entries=entries,
                             gives=gives))
        mm = memory.MemoryManager(regions)
        load = []
        for a, v in enumerate(content):
            mm.memory[real[a]] = v
            load.append([real[a], v])
        mm.enable()
        names = case["names"]
        t.emit("Layout", regions=spec, load=load)
        for op in ops[1:]:
            del seen[:], handled[:]
            res = dict(OK)
            if op[0] == "write":
                try:
                    mm.memory[real[op[1]]] = op[2]
                except Exception as e:
                    res = raised(e, names)
                t.emit("Write", a=real[op[1]], v=op[2], seen=list(seen), **res)
            elif op[0] == "read":
                value = -1
                try:
                    value = mm.memory[real[op[1]]]
                except Exception as e:
                    res = raised(e, names)
                t.emit("Read", a=real[op[1]], value=value, seen=list(seen),
                       **res)
            else:
                cpu = Cpu()
                cpu.pc = real[op[2]]
                try:
                    mm.MaybeInterceptExecution(cpu, real[op[1]])
                except Exception as e:
                    res = raised(e, names)
                t.emit("Transfer", old=real[op[1]], new=real[op[2]],
                       handled=list(handled), **res)


NAMES = (["Zero page", "Stack", "Text page 1", "HiRes Page 1", "HiRes Page 2",
          "IO page"] + ["Slot %d ROM" % n for n in range(1, 8)] + ["ROM"])


def apple(apple2, uthernet, load=()):
    a2 = apple2.AppleII(uthernet.Uthernet(b""))
    for a, v in load:
        a2.memory[a] = v
    a2.memory_manager.enable()
    a2.cpu.reset()
    return a2


class Runs:
    """Collapses consecutive addresses with equal observations."""

    def __init__(self, t, ev, **kw):
        self.t, self.ev, self.kw, self.cur = t, ev, kw, None

    def add(self, a, obs):
        if self.cur and self.cur[2] == obs:
            self.cur[1] = a
        else:
            self.flush()
            self.cur = [a, a, obs]

    def flush(self):
        if self.cur:
            lo, hi, obs = self.cur
            self.t.emit(self.ev, lo=lo, hi=hi, **self.kw, **obs)

    def done(self):
        self.flush()
        self.t.emit("MapDone")


def whole_map(t, apple2, uthernet, seed):
    io = range(0xc000, 0xc100)
    with env.quiet():
        a2 = apple(apple2, uthernet)
    runs = Runs(t, "MapWrites")
    for a in range(65536):
        obs = dict(OK, seen=0, named=0, back=0)
        del obs["hexes"], obs["text"]
        if a not in io:
            v = 65 + (a * 7 + seed) % 26
            with env.quiet() as text:
                try:
                    a2.memory[a] = v
                except Exception as e:
                    x = raised(e, NAMES)
                    obs.update(out=x["out"], names=x["names"],
                               named=int(a in x["hexes"]))
                obs["back"] = int(a2.memory[a] == v)
            said = text.getvalue()
            obs["seen"] = int("%04X" % a in said and chr(v) in said)
        runs.add(a, obs)
    runs.done()
    # from plain memory, from a region, from the I/O page's neighbours
    for old, opc in ((0x300, 0xea), (0x302, 0x60), (0x2fff, 0x4c),
                     (0x2ffe, 0x60), (0xfded, 0x20), (0xffff, 0x60),
                     (0xc7ff, 0xea), (0xc800, 0x4c), (0x7f, 0x4c)):
        with env.quiet():
            a2 = apple(apple2, uthernet, [(old, opc)])
        runs = Runs(t, "MapEntries", old=old, opc=opc)
        for a in range(65536):
            out = "ok"
            with env.quiet():
                a2.cpu.pc = a
                try:
                    a2.memory_manager.MaybeInterceptExecution(a2.cpu, old)
                except Exception as e:
                    out = raised(e, NAMES)["out"]
            runs.add(a, dict(out=out))
        runs.done()


def programs(t, apple2, uthernet, progs):
    # printing what runs must not change it
    for p, trace in [(p, trace) for p in progs for trace in (False, True)]:
        with env.quiet():
            a2 = apple(apple2, uthernet, p["load"])
            res = dict(OK)
            try:
                a2.Run(p["start"], trace=trace)
            except Exception as e:
                res = raised(e, NAMES)
            cells = [[a, a2.memory[a]] for a in p["look"]]
        t.emit("Run", start=p["start"], load=p["load"], cells=cells,
               pc=a2.cpu.pc, acc=a2.cpu.a, **res)


def main(t, args):
    with open(os.environ["VERIF_DATA"]) as f:
        data = json.load(f)
    env.setup("simulator")
    with env.quiet():
        import memory
        layouts(t, memory, data["layouts"])
        import apple2
        import uthernet
    if data["map"]:
        whole_map(t, apple2, uthernet, data["seed"])
    programs(t, apple2, uthernet, data["programs"])

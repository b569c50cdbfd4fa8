"""Symbols parsed, and operations emitted.  VERIF_DATA: debug files."""

import io
import json
import os
import random

import env


def as_list(table):
    return sorted([k, sorted([a, b] for a, b in v.items())]
                  for k, v in table.items())


def main(t, args):
    rng = random.Random("codec%s" % os.environ["VERIF_SEED"])
    env.setup()
    if "parse" in args:
        import symbol_table
        with open(os.environ["VERIF_DATA"]) as f:
            for lines in json.load(f):
                text = "".join(x["text"] + "\n" for x in lines)
                got = symbol_table.SymbolTable().parse(io.StringIO(text))
                t.emit("Parse", lines=[
                    dict(kind=x["kind"], attrs=x["attrs"]) for x in lines],
                    got=as_list(got))
        # the player's own, both ways of naming it
        path = os.path.join("player", "iivision.dbg")
        lines = []
        with open(path) as f:
            for raw in f.read().splitlines():
                kind, rest = raw.split("\t", 1)
                if kind in ("sym", "scope", "type"):
                    lines.append(dict(kind=kind, attrs=[
                        x.split("=", 1) for x in rest.split(",")]))
        t.emit("Parse", lines=lines,
               got=as_list(symbol_table.SymbolTable(path).parse()))
        ops = {}
        for name, rec in symbol_table.SymbolTable(path).parse().items():
            if "val" in rec:
                ops[name.strip('"')] = int(rec["val"], 16)
        t.emit("Addresses", ticks=[
            ops.get("op_tick_%d_page_%d" % (k, p), -1)
            for p in range(32, 64) for k in range(4, 68, 2)],
            rest=[ops.get("op_" + n, -1)
                  for n in ("ack", "terminate", "header")])
    if "emit" in args:
        import machine
        import opcodes
        import player
        import video_mode
        p = player.Player()
        t.emit("Labels", **player.operations(p.labels))
        m = machine.Machine()

        def emit(op):
            return [int(b) for b in m.emit(op)]

        for mode in video_mode.VideoMode:
            t.emit("Emit", kind="header", mode=mode.value,
                   bytes=emit(opcodes.Header(mode)))
        for a in (False, True):
            t.emit("Emit", kind="ack", aux=a, bytes=emit(opcodes.Ack(a)))
        t.emit("Emit", kind="term", bytes=emit(opcodes.Terminate()))
        cases = []
        for k in range(4, 68, 2):
            for pg in range(32, 64):
                for _ in range(int(args[-1])):
                    cases.append((k, pg))
        rng.shuffle(cases)
        edge = [0, 1, 127, 128, 254, 255]
        for k, pg in cases:
            c, *offs = [rng.choice(edge) if rng.random() < .3
                        else rng.randrange(256) for _ in range(5)]
            op = opcodes.TICK_OPCODES[(k, pg)](c, tuple(offs))
            t.emit("Emit", kind="tick", t=k, p=pg, c=c, offs=offs,
                   bytes=emit(op))
        # the table the transcoder chooses operations from
        t.emit("Keys", keys=sorted(list(x) for x in opcodes.TICK_OPCODES))
        # the debug file the transcoder reads, against the fresh program
        committed = player.symbols(os.path.join("player", "iivision.dbg"))
        t.emit("Committed", **player.operations(dict(committed)))

"""The 6502 player, assembled from the working tree."""

import os
import shutil
import subprocess

import env

EXEHDR = 0x3a


def symbols(path):
    """(name, value) of every symbol line with both, in file order."""
    out = []
    with open(path) as f:
        for line in f:
            kind, _, rest = line.rstrip("\n").partition("\t")
            if kind == "sym":
                kv = dict(x.split("=", 1) for x in rest.split(","))
                if "val" in kv:
                    out.append((kv["name"].strip('"'), int(kv["val"], 16)))
    return out


class Player:
    def __init__(self):
        d = os.path.join(env.SCRATCH, "asm")
        os.makedirs(d)
        src = os.path.join(env.REPO, "player")
        for n in os.listdir(src):
            if os.path.isfile(os.path.join(src, n)):
                shutil.copy(os.path.join(src, n), d)

        def run(*cmd):
            env._REAL["run"](cmd, cwd=d, check=True,
                             stdout=subprocess.DEVNULL)
        cfg = "apple2-asm-hgr.cfg"
        run("cl65", "-t", "apple2", "-C", cfg, "--cpu", "6502", "-c", "-o",
            "main.o", "main.s")
        run("cl65", "-t", "apple2", "-C", cfg, "-Wl", "--dbgfile,fresh.dbg",
            "-u", "__EXEHDR__", "--start-addr", "0x800", "-o", "player.bin",
            "main.o")
        with open(os.path.join(d, "player.bin"), "rb") as f:
            self.image = f.read()[EXEHDR:]
        self.origin = 0x800
        self.symbols = symbols(os.path.join(d, "fresh.dbg"))
        self.labels = dict(self.symbols)
        shutil.rmtree(d)


def operations(labels):
    """Addresses of the routines, by operation."""
    return dict(
        ticks=[[t, p, labels["op_tick_%d_page_%d" % (t, p)]]
               for p in range(32, 64) for t in range(4, 68, 2)],
        ack=labels["op_ack"], term=labels["op_terminate"],
        nop=labels["op_nop"], header=labels["op_header"])

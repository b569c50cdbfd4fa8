"""Real FileFrameGrabbers under given schedules, faults and histories.

VERIF_DATA: {"sched": [...]} or {"histories": [...]}, see checks.py.
"""

import itertools
import json
import os
import queue
import threading
import time

import env

AT = [0, 1, 517, 4099]         # offsets looked at, none a screen hole
# How much of a file an interrupted conversion leaves behind
TORN = itertools.cycle((8191, 100, 8185, 0, 8184, 4096, 8190, 8188))
PATIENCE = 30


def where(pos):
    """(page, offset) of a bitmap offset in the interleaved memory map."""
    return divmod(pos, 256)


def look(mm):
    return [int(mm.page_offset[where(p)]) for p in AT]


class Video(env.FakeVideo):
    """Frames that say which they are; conversions that can be watched."""

    def __init__(self, count, byte, home):
        super().__init__([], count=count)
        self.home = home + os.sep
        self.byte = byte
        self.wrote = []
        self.trouble = None          # (frame, kind)
        self.on_done = lambda i: None
        self.order = []

    def convert(self, args):
        from PIL import Image
        bmp = next(a for a in args if a.lower().endswith(".bmp"))
        if not os.path.abspath(bmp).startswith(self.home):
            raise OSError("from an earlier case")
        with Image.open(bmp) as im:
            im = im.convert("RGB")
            size = im.size
            r, g, b = im.getpixel((size[0] // 2, size[1] // 2))
        i = r | (g << 8)
        mode = "dhgr" if "dhgr" in args else "hgr" if "hgr" in args else "?"
        pal = next((a for a in args if a[0] == "P" and a[1:].isdigit()), "?")
        self.converted.append([i, mode, pal, list(size)])
        kind = self.trouble[1] if self.trouble and self.trouble[0] == i else ""
        if kind == "call":
            raise OSError("converter cannot run")
        if kind == "missing":
            return 1
        base = os.path.splitext(bmp)[0]
        files = [("main", base + "C.BIN", 0)] if mode == "hgr" else \
            [("main", base + ".BIN", 0), ("aux", base + ".AUX", 1)]
        for part, path, bank in files:
            buf = bytes((self.byte(i, bank, p, mode, pal)) % 256
                        for p in range(256)) * 32
            buf = bytearray(buf)
            for p in AT:
                buf[p] = self.byte(i, bank, p, mode, pal) % 256
            torn = kind == "torn" or kind == "half+torn" and part == "aux"
            if torn:
                buf = buf[:next(TORN)]
            elif kind == "short":
                buf = buf[:(100, 0, 4096, 8191)[i % 4]]
            with open(path, "wb") as f:
                f.write(buf)
            self.wrote.append([i, part, os.path.relpath(path, env.SCRATCH)])
            if kind == "half" or torn:
                raise OSError("converter died")
        self.on_done(i)
        return 0


class Log:
    def __init__(self, t):
        self.t, self.lock = t, threading.Lock()
        self.closed = False

    def __call__(self, ev, **kw):
        with self.lock:
            if not self.closed:
                self.t.emit(ev, **kw)


def grabber(path, mode, palette):
    import frame_grabber
    import palette as palette_module
    import video_mode
    return frame_grabber.FileFrameGrabber(
        path, video_mode.VideoMode[mode], palette_module.Palette[palette])


class Consumer(threading.Thread):
    """Asks for the next frame when told to."""

    def __init__(self, gen, log):
        super().__init__(daemon=True)
        self.gen, self.log = gen, log
        self.orders = queue.Queue()
        self.answers = queue.Queue()
        self.over = False

    def run(self):
        while True:
            order = self.orders.get()
            if order == "leave":
                self.gen.close()
                self.answers.put("left")
                return
            try:
                main, aux = next(self.gen)
            except StopIteration:
                self.log("Ended")
                self.over = True
            except BaseException as e:
                self.log("Failed", what=env.exc_name(e))
                self.over = True
            else:
                self.log("Deliver", at=AT, main=look(main),
                         aux=look(aux) if aux is not None else [])
            self.answers.put("next")
            if self.over:
                return


def schedule(t, case, k):
    log = Log(t)
    fault, kind = case["fault"], case["kind"]

    def byte(i, bank, pos, mode, pal):
        return i * 3 + bank * 101 + pos * 17 + i // 64

    d = os.path.join(env.SCRATCH, "s%d" % k)
    os.makedirs(d)
    v = Video(case["len"], byte, d)
    gate = threading.Semaphore(0)
    reached = threading.Semaphore(0)

    def on_decode(i):
        gate.acquire()
        if i == fault and kind == "decode":
            reached.release()
            raise RuntimeError("frame %d is damaged" % i)

    def on_done(i):
        if i == case.get("slow", -1):
            time.sleep(case["stall"])
        log("Convert", i=i)
        reached.release()

    v.on_decode, v.on_done = on_decode, on_done
    if fault >= 0 and kind != "decode":
        v.trouble = (fault, kind)
    v.install()
    path = os.path.join(d, "film.mp4")
    open(path, "w").close()
    log("Begin", len=case["len"], fault=fault, kind=kind, mode=case["mode"])
    before = set(threading.enumerate())
    cons = Consumer(grabber(path, case["mode"], "NTSC").frames(), log)
    cons.start()
    pending = False

    def answer():
        try:
            cons.answers.get(timeout=PATIENCE)
            return True
        except queue.Empty:
            log("Stuck", what="the next frame")
            return False

    ok = True
    started = case["start"]

    def settle():
        """Until the producer does nothing more."""
        n = -1
        while n != len(v.converted):
            n = len(v.converted)
            time.sleep(0.15)

    if started == "flood":
        gate.release(10000)
        cons.orders.put("next")
        ok = answer()
        settle()
        time.sleep(case.get("stall", 0))
        while ok and not cons.over:
            cons.orders.put("next")
            ok = answer()
    else:
        for op in case["sched"]:
            if not ok or cons.over:
                break
            if op == "C":
                gate.release()
                reached.acquire(timeout=0.02 if not pending else 0.2)
                if pending:
                    # the encoder is waiting for this
                    ok = answer()
                    pending = False
            elif op == "T":
                cons.orders.put("next")
                ok = answer()
            elif op == "W":
                cons.orders.put("next")
                pending = True
                time.sleep(0.002)
            elif op == "S":
                time.sleep(case["stall"])
            elif op == "L":
                break
    if ok and not cons.over:
        if pending:
            gate.release(10000)
            ok = answer()
            pending = False
    if ok and not cons.over:
        if case["end"] == "gone":
            cons.orders.put("leave")
            ok = answer()
            deadline = time.time() + 2
            extra = [None]
            while extra and time.time() < deadline:
                extra = [x for x in threading.enumerate()
                         if x not in before and x is not cons
                         and not x.daemon and x.is_alive()]
                time.sleep(0.01)
            log("Left", lingering=len(extra))
        else:
            gate.release(10000)
            while ok and not cons.over:
                cons.orders.put("next")
                ok = answer()
    log.closed = True
    return ok


def history(t, case, k):
    n = case["n"]
    d = os.path.join(env.SCRATCH, "h%d" % k)
    videos = []
    for name in case["videos"]:
        p = os.path.join(d, *name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if k % 3 == 1 and len(videos) == 1:
            # the name counts, not what it stands for
            os.symlink(videos[0], p)
        else:
            open(p, "w").close()
        videos.append(p)
    t.emit("Setup", n=n, names=case["videos"], videos=[
        dict(dir=["h%d" % k] + name[:-1], stem=case["stems"][j])
        for j, name in enumerate(case["videos"])])
    paths = {}

    def everything():
        out = []
        for root, _, files in os.walk(d):
            for f in files:
                p = os.path.join(root, f)
                if p not in videos:
                    out.append(os.path.relpath(p, env.SCRATCH))
        return sorted(out)

    for j, op in enumerate(case["ops"]):
        vid, mode, pal = op[1:4]
        if op[0] == "del":
            p = paths.get((vid, mode, pal, op[4], op[5]))
            done = p is not None and os.path.exists(
                os.path.join(env.SCRATCH, p))
            if done:
                os.remove(os.path.join(env.SCRATCH, p))
            t.emit("Delete", video=vid, mode=mode, palette=pal, i=op[4],
                   part=op[5], done=done)
            continue

        def byte(i, bank, pos, m, p):
            return (i * 3 + i // 64 + bank * 101 + pos * 17 + (7 if m == "dhgr" else 0)
                    + (29 if p == "P5" else 0) + vid * 53)

        v = Video(n, byte, d)
        if op[0] == "crash":
            v.trouble = (op[4], "half+torn" if op[5] and op[6] else
                         "half" if op[5] else "torn" if op[6] else
                         ("call", "missing")[j % 2])
        v.install()
        old = everything()
        name = videos[vid]
        if case["relative"]:
            name = os.path.relpath(name, env.SCRATCH)
        got, error, hung = [], [""], threading.Event()

        def consume():
            try:
                for main, aux in grabber(name, mode, pal).frames():
                    got.append([look(main),
                                look(aux) if aux is not None else []])
            except Exception as e:
                error[0] = env.exc_name(e)

        th = threading.Thread(target=consume, daemon=True)
        th.start()
        th.join(PATIENCE)
        if th.is_alive():
            t.emit("Hang", op=op)
            return
        new = everything()
        for i, part, p in v.wrote:
            paths[vid, mode, pal, i, part] = p
        kw = dict(video=vid, mode=mode, palette=pal, conv=v.converted,
                  wrote=[[i, part, p.split(os.sep)]
                         for i, part, p in v.wrote],
                  out=got, at=AT, error=error[0],
                  all=[p.split(os.sep) for p in new],
                  gone=[p.split(os.sep) for p in sorted(set(old) - set(new))])
        if op[0] == "run":
            t.emit("Run", **kw)
        else:
            t.emit("Crash", k=op[4], half=op[5], torn=op[6], **kw)


def main(t, args):
    env.setup()
    with open(os.environ["VERIF_DATA"]) as f:
        data = json.load(f)
    for k, case in enumerate(data.get("sched", [])):
        if not schedule(t, case, k):
            break
    for k, case in enumerate(data.get("histories", [])):
        history(t, case, k)

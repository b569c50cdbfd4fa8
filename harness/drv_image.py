"""Videos of one frame each, from the decoder to the encoder.

VERIF_DATA: list of {w, h, gx, gy, mode, palette, again}.
"""

import json
import os
import random

import env


class Video(env.FakeVideo):
    def __init__(self, t, opt, rng):
        super().__init__([], count=1)
        self.t, self.opt, self.rng = t, opt, rng
        self.colours = [[rng.randrange(256) for _ in range(3)]
                        for _ in range(opt["gx"] * opt["gy"])]

    def image(self, i):
        import numpy as np
        o = self.opt
        grid = np.array(self.colours, dtype=np.uint8).reshape(
            (o["gy"], o["gx"], 3))
        return grid.repeat(o["h"] // o["gy"], axis=0).repeat(
            o["w"] // o["gx"], axis=1)

    def convert(self, args):
        from PIL import Image
        bmp = next(a for a in args if a.lower().endswith(".bmp"))
        dual = "dhgr" in args
        with Image.open(bmp) as im:
            im = im.convert("RGB")
            size = list(im.size)
            at = {(self.rng.randrange(size[0]), self.rng.randrange(size[1]))
                  for _ in range(600)}
            pixels = [[x, y, list(im.getpixel((x, y)))] for x, y in at]
        hole = [i for i in range(8192) if i % 128 >= 120]
        files = []
        for name in (".BIN", ".AUX") if dual else ("C.BIN",):
            buf = bytearray(self.rng.randrange(128 if dual else 256)
                            for _ in range(8192))
            for h in hole:
                buf[h] = 0
            files.append(list(buf))
            with open(bmp[:-4] + name, "wb") as f:
                f.write(bytes(buf))
        self.t.emit("Converted", size=size, pixels=pixels, file=files)
        return 0


def main(t, args):
    with open(os.environ["VERIF_DATA"]) as f:
        cases = json.load(f)
    env.setup()
    import frame_grabber
    import palette
    import video_mode
    for k, opt in enumerate(cases):
        rng = random.Random(json.dumps(opt, sort_keys=True))
        v = Video(t, opt, rng)
        v.install()
        name = os.path.join(env.SCRATCH, "film%d.mp4" % k)
        open(name, "w").close()
        t.emit("Frame", colours=v.colours,
               **{x: opt[x] for x in ("w", "h", "gx", "gy")})
        for again in range(opt["again"] + 1):
            g = frame_grabber.FileFrameGrabber(
                name, video_mode.VideoMode[opt["mode"]],
                palette.Palette[opt["palette"]])
            for main_map, aux_map in g.frames():
                t.emit("Delivered", banks=[
                    m.page_offset.tolist() for m in (main_map, aux_map)
                    if m is not None])

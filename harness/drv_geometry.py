"""The address tables, and histories of writes through the memory views.

VERIF_DATA: list of histories generated from spec/Geometry.tla.
"""

import json
import os

import env


def main(t, args):
    with open(os.environ["VERIF_DATA"]) as f:
        histories = json.load(f)
    env.setup()
    with env.quiet():
        import screen
    tables(t, screen)
    for h in histories:
        replay(t, screen, h)


def tables(t, screen):
    for y in range(192):
        t.emit("Row", y=y,
               base=[screen.y_to_base_addr(y), screen.y_to_base_addr(y, 1)],
               table=[screen.Y_TO_BASE_ADDR[p][y] for p in (0, 1)],
               page=screen.X_Y_TO_PAGE[y], off=screen.X_Y_TO_OFFSET[y])
    for p in range(32):
        t.emit("Page", p=p, x=screen.PAGE_OFFSET_TO_X[p],
               y=screen.PAGE_OFFSET_TO_Y[p],
               hole=screen.SCREEN_HOLES[p].tolist())
    items = sorted([int(a), *map(int, c)]
                   for a, c in screen.ADDR_TO_COORDS.items())
    t.emit("CoordCount", n=len(items))
    for i in range(0, len(items), 256):
        t.emit("Coords", items=items[i:i + 256])


def replay(t, screen, h):
    views, shadow = [], []

    def cells(v):
        a = v.data if isinstance(v, screen.FlatMemoryMap) else v.page_offset
        return a.reshape(-1).copy()

    for op in h:
        kind, exc = op[0], ""
        if kind == "new":
            cls = (screen.FlatMemoryMap if op[1] == "flat"
                   else screen.MemoryMap)
            views, shadow = [cls(screen_page=op[2])], []
        elif kind == "convert":
            v = views[op[1] - 1]
            views.append(v.to_memory_map() if isinstance(
                v, screen.FlatMemoryMap) else v.to_flat_memory_map())
        else:
            try:
                views[op[1] - 1].write(*op[2:])
            except Exception as e:
                exc = type(e).__name__
        now = [cells(v) for v in views]
        if kind in ("new", "convert"):
            c = now[-1]
            t.emit("View", op=op, kind=type(views[-1]).__name__,
                   scrn=views[-1].screen_page, n=len(c),
                   nonzero=[[int(i), int(c[i])] for i in c.nonzero()[0]])
        else:
            t.emit("Write", op=op, exc=exc, d=[
                [[int(i), int(b[i])] for i in (a != b).nonzero()[0]]
                for a, b in zip(shadow, now)])
        shadow = now

"""Runs the code under test at its real boundaries.

Everything the transcoder needs from outside this sandbox is replaced where it
leaves the project: the video decoder (skvideo), the image converter
(bmp2dhr, a subprocess), and three packages librosa imports but does not use
here (numba, llvmlite, sklearn).  Audio is real: .wav files through audioread
and librosa.  Nothing inside the project is replaced except the edit-distance
table, which is computed in a second instead of an hour (see edtable.c).
"""

import atexit
import contextlib
import ctypes
import gc
import importlib.abc
import importlib.machinery
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import types
import warnings
import wave

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True

_REAL = {n: getattr(subprocess, n) for n in (
    "call", "run", "Popen", "check_call", "check_output")}
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SCRATCH = tempfile.mkdtemp(prefix="iiv-")
atexit.register(shutil.rmtree, SCRATCH, True)


def die_with_parent():
    """Leave no process behind when the check is stopped."""
    ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)


class _Dummy(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Dummy(self.__name__ + "." + n)

    def __call__(self, *a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f


class _DummyFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in ("numba", "llvmlite", "sklearn"):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = _Dummy(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, m):
        pass


def setup(sub="transcoder"):
    """Make <sub>'s modules importable, from a scratch working directory."""
    sys.meta_path.insert(0, _DummyFinder())
    sys.path.insert(0, os.path.join(REPO, sub))
    os.symlink(os.path.join(REPO, "player"), os.path.join(SCRATCH, "player"))
    os.makedirs(os.path.join(SCRATCH, "transcoder", "data"))
    os.chdir(SCRATCH)


@contextlib.contextmanager
def quiet():
    """Discard what the code under test prints."""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


# --------------------------------------------------------------------------
# Trace output

class Trace:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def emit(self, ev, **kw):
        kw["ev"] = ev
        self.f.write(json.dumps(kw, default=_plain) + "\n")
        self.n += 1

    def close(self):
        self.f.close()


def _plain(o):
    """Numpy scalars and arrays -> JSON."""
    if hasattr(o, "tolist"):
        return o.tolist()
    if hasattr(o, "item"):
        return o.item()
    if isinstance(o, (set, frozenset, tuple)):
        return list(o)
    return repr(o)


def exc_name(e):
    return "%s: %s" % (type(e).__name__, str(e)[:120])


# --------------------------------------------------------------------------
# Edit distance tables

def _edlib():
    so = os.path.join(SCRATCH, "edtable.so")
    if not os.path.exists(so):
        _REAL["check_call"](
            ["gcc", "-O3", "-fopenmp", "-shared", "-fPIC", "-o", so,
             os.path.join(HERE, "edtable.c")])
    return ctypes.CDLL(so)


def pixel_table(cls, nominal):
    """Pixel values of every masked value, as the code under test has them."""
    import colours
    n = int(cls.MASKED_DOTS)
    buf = bytearray()
    for o, ph in enumerate(cls.PHASES):
        for i in range(1 << int(cls.MASKED_BITS)):
            buf += bytes(colours.dots_to_nominal_colour_pixel_values(
                n, cls.to_dots(i, byte_offset=o), nominal, init_phase=ph))
    return buf


def costs(pal_cls):
    import numpy as np
    import make_data_tables as mdt
    edp = mdt.compute_substitute_costs(pal_cls)
    c = np.zeros((16, 16), dtype=np.int32)
    for i, a in enumerate("0123456789ABCDEF"):
        for j, b in enumerate("0123456789ABCDEF"):
            c[i, j] = edp.substitute_costs[ord(a), ord(b)]
    return c


_TABLES = {}


def ed_table(cls, pal):
    """Full table for a bitmap class and Palette member, from repo code."""
    import numpy as np
    import colours
    import palette
    key = (cls.NAME, pal)
    if key not in _TABLES:
        # they are large: keep one
        drop_tables()
        nominal = (colours.DHGRColours if cls.NAME == "DHGR"
                   else colours.HGRColours)
        bits = int(cls.MASKED_BITS)
        buf = pixel_table(cls, nominal)
        cost = costs(palette.PALETTES[pal]).copy()
        out = np.zeros((len(cls.PHASES), 1 << (2 * bits)), dtype=np.uint16)
        b = (ctypes.c_char * len(buf)).from_buffer(buf)
        _edlib().build(
            b, len(cls.PHASES), bits, int(cls.MASKED_DOTS),
            ctypes.c_void_p(cost.ctypes.data), 1,
            ctypes.c_void_p(out.ctypes.data))
        _TABLES[key] = out
    return _TABLES[key]


def drop_tables():
    for k in [k for k in _TABLES if k[0] != "z"]:
        del _TABLES[k]
    gc.collect()


def install_tables(kind="full"):
    """Serve edit_distances() from memory.  kind: full, or zero (no diffs)."""
    import numpy as np
    import palette
    import screen

    def table(cls, palette_id):
        if not isinstance(palette_id, palette.Palette):
            raise TypeError("palette id %r" % (palette_id,))
        if kind == "zero":
            if ("z", cls.NAME) not in _TABLES:
                _TABLES["z", cls.NAME] = np.zeros(
                    (len(cls.PHASES), 1 << (2 * int(cls.MASKED_BITS))),
                    dtype=np.uint16)
            return _TABLES["z", cls.NAME]
        return ed_table(cls, palette_id)

    for c in (screen.Bitmap, screen.HGRBitmap, screen.DHGRBitmap):
        if "edit_distances" in vars(c):
            setattr(c, "edit_distances", classmethod(table))


# --------------------------------------------------------------------------
# Video input: fake decoder and converter

class FakeVideo:
    """frames[i] = (main, aux) arrays of 8192 bytes, or callable(i)."""

    def __init__(self, frames, fps="30/1", count=None):
        self.frames = frames
        self.fps = fps
        self.count = len(frames) if count is None else count
        self.converted = []          # (index, mode, palette arg)
        self.decoded = []            # indices handed out by the decoder
        self.on_decode = None        # hooks for schedule control and faults
        self.on_convert = None

    def colour(self, i):
        return (i & 0xff, (i >> 8) & 0xff, 77)

    def image(self, i):
        import numpy as np
        f = np.zeros((6, 8, 3), dtype=np.uint8)
        f[:, :] = self.colour(i)
        return f

    def install(self):
        import skvideo.io

        vid = self

        class Reader:
            def __init__(self, filename, *a, **k):
                self.filename = filename

            def nextFrame(self):
                for i in range(vid.count):
                    if vid.on_decode:
                        vid.on_decode(i)
                    f = vid.image(i)
                    vid.decoded.append(i)
                    yield f

            __iter__ = nextFrame

            def close(self):
                pass

        skvideo.io.FFmpegReader = Reader
        skvideo.io.ffprobe = lambda fn: {"video": {"@r_frame_rate": vid.fps}}

        def ours(args):
            if isinstance(args, str):
                args = args.split()
            args = [str(x) for x in args]
            return args if "bmp2dhr" in os.path.basename(args[0]) else None

        class Done:
            def __init__(self, rc):
                self.returncode = rc
                self.stdout = self.stderr = b""

            def check_returncode(self):
                if self.returncode:
                    raise subprocess.CalledProcessError(
                        self.returncode, "bmp2dhr")

        class FakePopen(Done):
            def wait(self, *a, **k):
                return self.returncode

            poll = wait

            def communicate(self, *a, **k):
                return b"", b""

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        def checked(rc):
            if rc:
                raise subprocess.CalledProcessError(rc, "bmp2dhr")

        def wrap(real, result):
            def f(args, *a, **k):
                mine = ours(args)
                if mine is None:
                    return real(args, *a, **k)
                t0 = time.time()
                rc = vid.convert(mine)
                limit = k.get("timeout")
                if limit is not None and time.time() - t0 > limit:
                    raise subprocess.TimeoutExpired(mine, limit)
                if k.get("check"):
                    checked(rc)
                return result(rc)
            return f

        for name, result in (
                ("call", lambda rc: rc), ("run", Done), ("Popen", FakePopen),
                ("check_call", lambda rc: checked(rc) or 0),
                ("check_output", lambda rc: checked(rc) or b"")):
            setattr(subprocess, name, wrap(_REAL[name], result))

    def convert(self, args):
        from PIL import Image
        bmp = next(a for a in args if a.lower().endswith(".bmp"))
        with Image.open(bmp) as im:
            im = im.convert("RGB")
            size = im.size
            r, g, b = im.getpixel((im.size[0] // 2, im.size[1] // 2))
        idx = r | (g << 8)
        mode = "dhgr" if "dhgr" in args else "hgr" if "hgr" in args else "?"
        pal = next((a for a in args if a[0] == "P" and a[1:].isdigit()), "?")
        self.converted.append((idx, mode, pal, size))
        if self.on_convert:
            rc = self.on_convert(idx)
            if rc:
                return rc
        main, aux = (self.frames(idx) if callable(self.frames)
                     else self.frames[idx])
        base = bmp[:-4]
        if mode == "hgr":
            with open(base + "C.BIN", "wb") as f:
                f.write(bytes(main))
        elif "A" in args:
            with open(base + ".BIN", "wb") as f:
                f.write(bytes(main))
            with open(base + ".AUX", "wb") as f:
                f.write(bytes(aux))
        return 0


def write_wav(path, samples, rate=44100, channels=1):
    """samples: list of int16, interleaved."""
    import array
    a = array.array("h", samples)
    with wave.open(path, "wb") as w:
        w.setnchannels(channels)
        w.setsampwidth(2)
        w.setframerate(rate)
        w.writeframes(a.tobytes())

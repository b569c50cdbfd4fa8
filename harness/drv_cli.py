"""Runs real command lines.  VERIF_DATA: what Gen_Cli made up."""

import hashlib
import inspect
import json
import os
import random
import runpy
import sys

import env

OPTS = dict(output="--output", max="--max_output_mb",
            norm="--audio_normalization", rate="--audio_bitrate",
            skip="--every_n_video_frames", mode="--video_mode",
            palette="--palette")


def argv(case, name, root):
    """root: for output files given by their full names."""
    out = []
    for i, (field, text, _) in enumerate(case["tokens"]):
        if i == case["at"]:
            out.append(name)
        if field == "output" and root:
            text = os.path.join(root, text)
        if case["eq"] >> i & 1:
            out.append("%s=%s" % (OPTS[field], text))
        else:
            out += [OPTS[field], text]
    if case["at"] >= len(case["tokens"]):
        out.append(name)
    return out


def files(root):
    return sorted(os.path.relpath(os.path.join(d, f), root)
                  for d, _, fs in os.walk(root) for f in fs)


def digest(data):
    return [len(data), hashlib.sha256(data).hexdigest()[:24]]


def number(v):
    return -1 if v is None else int(v)


def main(t, args):
    with open(os.environ["VERIF_DATA"]) as f:
        cases = json.load(f)
    env.setup()
    built, sent = [], []
    with env.quiet():
        import movie
        env.install_tables("zero")
        real = movie.Movie
        sig = inspect.signature(real.__init__)

        class Recorded(real):
            def __init__(self, *a, **k):
                b = sig.bind(self, *a, **k)
                b.apply_defaults()
                built.append(dict(b.arguments))
                real.__init__(self, *a, **k)

            def emit_stream(self, ops):
                out = bytearray()
                sent.append(out)
                for x in real.emit_stream(self, ops):
                    out.append(x)
                    yield x

        movie.Movie = Recorded
    program = os.path.join(env.REPO, "transcoder", "main.py")
    for k, case in enumerate(cases):
        r = random.Random("cli%s/%d" % (os.environ["VERIF_SEED"], k))
        root = os.path.join(env.SCRATCH, "c%d" % k)
        n = case["name"]
        name = os.path.join(*n["dir"], n["stem"] + n["suffix"])
        os.makedirs(os.path.join(root, *n["dir"]))
        os.makedirs(os.path.join(root, "other"))
        os.chdir(root)
        if k % 5 == 4:
            given = os.path.join(root, name)
        else:
            given = name
        rate = r.choice([14700, 11025])
        env.write_wav(name, [r.randrange(-30000, 30000)
                             for _ in range(r.choice([20, 320]))], rate)
        if k % 7 == 3:
            # the name counts, not what it stands for
            os.rename(name, os.path.join("other", "real.mov"))
            os.symlink(os.path.join(root, "other", "real.mov"), name)
        junk = bytes(r.randrange(256) for _ in range(9999))
        if case["old"]:
            # whatever was in the output file before
            default = os.path.join(*n["dir"], n["stem"] + ".a2m")
            for x in ("out.a2m", "plain", default):
                if os.path.exists(x):
                    continue
                with open(x, "wb") as f:
                    f.write(junk)
        os.symlink(os.path.join(env.SCRATCH, "player"), "player")
        os.makedirs("transcoder/data", exist_ok=True)
        vid = env.FakeVideo(lambda i: (bytes([i + 1]) * 8192,
                                       bytes([i + 2]) * 8192), count=50)
        vid.install()
        before = {f: open(f, "rb").read() for f in files(root)}
        del built[:], sent[:]
        code = 0
        line = argv(case, given, root if r.random() < .4 else "")
        with env.quiet():
            try:
                sys.argv = [program] + line
                runpy.run_path(program, run_name="__main__")
            except SystemExit as e:
                code = (0 if e.code is None else e.code
                        if isinstance(e.code, int) else 1)
            except Exception:
                code = 1
        new = []
        for f in files(root):
            # the conversion thread may still be at work
            if f.endswith((".BIN", ".AUX", ".bmp")):
                continue
            with open(f, "rb") as g:
                data = g.read()
            if before.get(f) != data:
                new.append([f] + digest(data))
        b = built[-1] if built else {}
        norm = b.get("audio_normalization")
        rec = dict(
            filename=b.get("filename"), skip=number(b.get("every_n_video_frames")),
            rate=number(b.get("audio_bitrate")),
            norm=int(round(1000 * norm)) if norm is not None else -1,
            max=int(b.get("max_bytes_out") or 0),
            mode=getattr(b.get("video_mode"), "name", ""),
            palette=getattr(b.get("palette"), "name", "")) if b else {}
        name_rec = dict(n)
        if given != name:
            name_rec["dir"] = n["dir"]
        t.emit("Ran", tokens=case["tokens"], argv=line, input=given,
               name=name_rec, code=code, movies=len(built), built=rec,
               head=list(sent[-1][:7]) if sent else [],
               streamed=digest(bytes(sent[-1])) if sent else [], files=new)
        os.chdir(env.SCRATCH)

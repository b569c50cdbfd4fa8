"""Sound files and decoders, and what audio.Audio makes of them.

VERIF_DATA: list of cases
  {kind: duration, sr, rate, n, frame, blocks}     blocks: bytes per delivery
  {kind: exact|coarse|beginning, ...}
"""

import collections
import json
import os
import random

import env


def hist(sums):
    return sorted([v, n] for v, n in collections.Counter(sums).items())


class Decoder:
    """What audioread.audio_open returns, with blocks of given sizes."""

    def __init__(self, raw, sr, ch, blocks):
        self.raw, self.samplerate, self.channels = raw, sr, ch
        self.blocks = blocks
        self.duration = len(raw) / (2. * ch * sr)
        self.closed = False

    def read_data(self, *a, **k):
        pos = i = 0
        while pos < len(self.raw):
            # (sometimes nothing at all)
            n = self.blocks[i % len(self.blocks)]
            yield bytes(self.raw[pos:pos + n])
            pos += n
            i += 1

    __iter__ = read_data

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def amp(norm):
    norm = float(norm)
    if norm == 0:
        return 0
    if not (0 < norm < float("inf")):
        return -1
    return min(int(round(16384 * 1000 / norm)), 2000000000)


def run(audio, real_open, path, case, raw=None):
    """(samples, normalisation) of a file on disk or of a decoder's data."""
    if case.get("blocks"):
        import array
        data = array.array("h", raw).tobytes()
        audio.audioread.audio_open = lambda *a, **k: Decoder(
            data, case["sr"], case["ch"], case["blocks"])
    else:
        audio.audioread.audio_open = real_open
        env.write_wav(path, raw, case["sr"], case["ch"])
    norm = case["p"] / case["q"] if "p" in case else None
    a = audio.Audio(path, bitrate=case["rate"], normalization=norm)
    return [int(x) for x in a.audio_stream()], a.normalization


def frames_of(r, case):
    """Interleaved samples of an exact case."""
    ch, n, shape = case["ch"], case["n"], case["shape"]
    if shape == "ramp":
        return [(i * case.get("step", 1) + case.get("from", -32768) + 32768)
                % 65536 - 32768 for i in range(n) for _ in range(ch)]
    if shape == "noise":
        return [r.randrange(-32768, 32768) for _ in range(n * ch)]
    if shape == "quiet":
        return [r.randrange(-40, 41) for _ in range(n * ch)]
    if shape == "constant":
        return [case["value"]] * (n * ch)
    if shape == "spikes":      # fewer than 0.5% on either side
        s = [0] * (n * ch)
        for k in range(case["spikes"]):
            i = r.randrange(n)
            for c in range(ch):
                s[i * ch + c] = case["value"]
        return s
    if shape == "onesided":
        return [r.randrange(case["lo"], case["hi"]) for _ in range(n * ch)]
    if shape == "left":        # one channel only
        s = [0] * (n * ch)
        for i in range(n):
            s[i * ch] = r.randrange(-32768, 32768)
        return s
    raise ValueError(shape)


def main(t, args):
    env.setup()
    import audio
    real_open = audio.audioread.audio_open
    path = os.path.join(env.SCRATCH, "sound.wav")
    with open(os.environ["VERIF_DATA"]) as f:
        cases = json.load(f)
    for k, case in enumerate(cases):
        r = random.Random("audio%s/%d" % (os.environ["VERIF_SEED"], k))
        if case["kind"] == "duration":
            case["ch"] = case["frame"] // 2
            case.setdefault("p", 1)
            case.setdefault("q", 1)
            raw = [r.randrange(-32768, 32768)
                   for _ in range(case["n"] * case["ch"])]
            out, _ = run(audio, real_open, path, case, raw)
            t.emit("Duration", sr=case["sr"], rate=case["rate"], n=case["n"],
                   ch=case["ch"], blocks=case["blocks"][:12], count=len(out))
        elif case["kind"] == "exact":
            raw = frames_of(r, case)
            sums = [sum(raw[i:i + case["ch"]])
                    for i in range(0, len(raw), case["ch"])]
            out, norm = run(audio, real_open, path, case, raw)
            t.emit("Exact", sr=case["sr"], rate=case["rate"], n=len(sums),
                   ch=case["ch"], p=case.get("p", -1), q=case.get("q", 1),
                   hist=[] if "p" in case else hist(sums),
                   sums=sums, out=out, count=len(out), amp=amp(norm))
        elif case["kind"] == "coarse":
            raw, sums = [], []
            for v in case["secs"]:
                raw += [v] * (case["sr"] * case["ch"])
                sums += [v * case["ch"]] * case["sr"]
            out, norm = run(audio, real_open, path, case, raw)
            q = case["rate"] // 4
            t.emit("Coarse", sr=case["sr"], rate=case["rate"], n=len(sums),
                   ch=case["ch"], hist=hist(sums), count=len(out),
                   amp=amp(norm), secs=[
                       [v * case["ch"], sorted(set(
                           out[i * case["rate"] + q:
                               (i + 1) * case["rate"] - q]))]
                       for i, v in enumerate(case["secs"])])
        elif case["kind"] == "beginning":
            import numpy as np
            n = case["n"]
            raw = np.full(n, case["late"], dtype=np.int16)
            raw[:case["quiet"]] = case["early"]
            data = raw.tobytes()
            audio.audioread.audio_open = lambda *a, **k: Decoder(
                data, case["rate"], 1, [65536])
            a = audio.Audio(path, bitrate=case["rate"])
            t.emit("Beginning", amp=amp(a.normalization),
                   lo=case["amp"] * 1000 - 5, hi=case["amp"] * 1000 + 5)

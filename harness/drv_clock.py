"""The encoder's clock over much longer movies than can be encoded here.

VERIF_DATA: [fps, rate, samples] triples.  When each frame becomes due is
asked of the encoder sample by sample; of these, some are recorded.
"""

import fractions
import json
import os

import env


def main(t, args):
    with open(os.environ["VERIF_DATA"]) as f:
        cases = json.load(f)
    env.setup()
    with env.quiet():
        import movie
        env.install_tables("zero")
    for i, (fps, rate, n) in enumerate(cases):
        num, den = (int(x) for x in fps.split("/"))
        env.FakeVideo(lambda k: (bytes(8192), bytes(8192)), fps=fps,
                      count=1).install()
        name = "clock%d.wav" % i
        env.write_wav(name, [0] * 9, rate)
        with env.quiet():
            video = movie.Movie(name, audio_bitrate=rate,
                                audio_normalization=1.0).video
        tick = getattr(video, "tick", None)
        if tick is None:
            t.emit("NoClock")
            continue
        fires = [k for k in range(1, n + 1) if tick(k)]
        ratio = fractions.Fraction(num, den * rate)
        near = sorted(range(len(fires)),
                      key=lambda f: -(f / ratio) % 1)[:60]
        some = set(range(150)) | set(near) | set(
            range(0, len(fires), max(1, len(fires) // 150))) | set(
            range(len(fires) - 60, len(fires)))
        t.emit("Clock", num=ratio.numerator, den=ratio.denominator,
               samples=n, frames=len(fires),
               due=[[f, fires[f]] for f in sorted(some)
                    if 0 <= f < len(fires)])

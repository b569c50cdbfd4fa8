"""The transport alone, over streams as long as real movies.

VERIF_DATA: [mode, operations, limit] triples.  The operations are all alike;
the stream is recorded as runs of equal blocks.
"""

import json
import os

import env
from drv_stream import player_symbols, symbols_event

BLOCK = 4096


def main(t, args):
    with open(os.environ["VERIF_DATA"]) as f:
        cases = json.load(f)
    env.setup()
    with env.quiet():
        import movie
        import opcodes
        import video_mode
        env.install_tables("zero")
    env.FakeVideo(lambda k: (bytes(8192), bytes(8192)), count=1).install()
    env.write_wav("long.wav", [0] * 9, 14700)
    t.emit("Sym", **symbols_event(player_symbols()))
    for mode, n, limit in cases:
        vm = video_mode.VideoMode[mode]
        with env.quiet():
            m = movie.Movie("long.wav", audio_normalization=1.0,
                            max_bytes_out=limit or None, video_mode=vm)
        t.emit("Long", mode=int(mode == "DHGR"), ops=n,
               limit=int(-(-limit // 1)))

        def ops():
            yield opcodes.Header(mode=vm)
            op = opcodes.TICK_OPCODES[(34, 32)](77, [1, 2, 3, 4])
            for _ in range(n):
                yield op

        last, count, runs, total = None, 0, 0, 0
        block = bytearray()

        def flush():
            nonlocal runs
            if last is not None and runs < 40:
                t.emit("Blocks", b=list(last), n=count)
            runs += 1

        with env.quiet():
            for b in m.emit_stream(ops()):
                block.append(b)
                if len(block) == BLOCK:
                    total += BLOCK
                    if block == last:
                        count += 1
                    else:
                        flush()
                        last, count = block, 1
                    block = bytearray()
                    if total > 7 * n + 7 * n // 500 + 10 * BLOCK:
                        break
        flush()
        last, count = block, 1
        flush()
        t.emit("End", total=total + len(block), runs=runs)

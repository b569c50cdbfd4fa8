From 9d9382dd0b09a06199f2de5c3957ab58dae7ac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 01/14] fix: pad with the byte that is already on the screen

When there was no work left the encoder padded by storing the target's byte
at (32, 0), without tracking the store.  If the screen held a different but
visually identical byte there, the player's screen and the encoder's model of
it diverged.
---
 transcoder/video.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index fe90147..65ad7f0 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -245,8 +245,10 @@ class Video:
         #             target_pixelmap.packed[diff_p, diff_o]))
         #     assert False
 
-        # If we run out of things to do, pad forever
-        content = target.page_offset[0, 0]
+        # If we run out of things to do, pad forever.  We must not change the
+        # screen without also tracking the change, so re-store what is there
+        # already: the target byte may differ while looking the same.
+        content = source.page_offset[0, 0]
         while True:
             yield 32, content, [0, 0, 0, 0]
 
-- 
2.43.0


From f46fd97fea358c6ca26829ef71cdb80d182bc562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 02/14] fix: fill all four offsets of a tick opcode

The search for additional offsets stopped after finding 2 rather than 3 of
them, so the fourth store of every opcode was always a repeat of the first.
---
 transcoder/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index 65ad7f0..b1316d1 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -178,7 +178,7 @@ class Video:
                         priorities, (-p, random.getrandbits(8), page, o))
 
                 offsets.append(o)
-                if len(offsets) == 3:
+                if len(offsets) == 4:
                     break
 
             # Pad to 4 if we didn't find enough
-- 
2.43.0


From 3e8e8c54847587e03a3b296a4d0a9d45eb381b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 03/14] fix: derive output names from the input's last path
 component

For an input without a suffix the frame cache went to /<mode>/<palette> in
the root directory and the output to a file called "a2m"; with a dot only in a
directory name both were placed outside that directory.
---
 transcoder/frame_grabber.py | 2 +-
 transcoder/main.py          | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 2940f1d..ff015fd 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -46,7 +46,7 @@ class FileFrameGrabber(FrameGrabber):
     @staticmethod
     def _output_dir(filename, video_mode, palette) -> str:
         return "%s/%s/%s" % (
-            ".".join(filename.split(".")[:-1]),
+            os.path.splitext(filename)[0],
             video_mode.name,
             palette.name)
 
diff --git a/transcoder/main.py b/transcoder/main.py
index 398532d..703d8b0 100644
--- a/transcoder/main.py
+++ b/transcoder/main.py
@@ -1,6 +1,7 @@
 """Transcodes an input video file to ][-Vision format."""
 
 import argparse
+import os
 
 import movie
 import palette
@@ -62,7 +63,7 @@ def main(args):
         out_filename = args.output
     else:
         # Replace suffix with .a2m
-        out_filename = ".".join(filename.split(".")[:-1] + ["a2m"])
+        out_filename = os.path.splitext(filename)[0] + ".a2m"
 
     with open(out_filename, "wb") as out:
         for bytes_out, b in enumerate(m.emit_stream(m.encode())):
-- 
2.43.0


From 2f7027656327b82b0604494689a63b3d493f3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 04/14] fix: do not divide by zero when the audio starts with
 silence

The normalization became infinite, and inf * 0 = nan turned every silent
sample into the lowest speaker level.
---
 transcoder/audio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index f537be2..ab44605 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -79,6 +79,10 @@ class Audio:
         a = self._decode(f, raw)
         norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
 
+        if not norm:
+            # Silence: any multiplier will do
+            return 1.
+
         return 16384. / norm
 
     def audio_stream(self) -> Iterator[int]:
-- 
2.43.0


From 0c3b1fdc9f849dbe21f0c459e2aa5222a59d93e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 05/14] fix: report a set soft switch in bit 7 of its status

0x80 & True is 0, so every soft switch always read as off.
---
 simulator/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.py b/simulator/machine.py
index bc6d076..4f4220f 100644
--- a/simulator/machine.py
+++ b/simulator/machine.py
@@ -73,7 +73,7 @@ class SoftSwitch:
     def get(self) -> int:
         Log(self.name, "Reading soft switch (%s)" % (
             "on" if self.state else "off"))
-        return 0x80 & self.state
+        return 0x80 if self.state else 0x00
 
     @staticmethod
     def unimplemented(_):
-- 
2.43.0


From e57a6546aa0b5c62777b03aa4833958b818fd0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 06/14] fix: keep all 8 low bits of the W5100 pointer when
 WADRH is written

---
 simulator/apple2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/apple2.py b/simulator/apple2.py
index 7ab06cd..ac73112 100644
--- a/simulator/apple2.py
+++ b/simulator/apple2.py
@@ -58,7 +58,7 @@ class AppleII(machine.Machine):
 
         def _uther_wadrh(mode, value):
             old = self.uthernet.ptr
-            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0x7f)
+            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0xff)
             machine.Log("WADRH", "%04x -> %04x" % (old, self.uthernet.ptr))
 
         def _uther_wadrl(mode, value):
-- 
2.43.0


From 5a243c119b78276e905fc46902ec9451b6c948e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 07/14] fix: report a failed frame conversion instead of
 hanging

An exception in the worker thread (no bmp2dhr, unreadable frame) ended the
thread without an end marker, and the transcoder waited for a frame forever.
---
 transcoder/frame_grabber.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index ff015fd..96096a8 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -64,6 +64,7 @@ class FileFrameGrabber(FrameGrabber):
         os.makedirs(frame_dir, exist_ok=True)
 
         q = queue.Queue(maxsize=10)
+        errors = []
 
         def _hgr_decode(_idx, _frame):
             outfile = "%s/%08dC.BIN" % (frame_dir, _idx)
@@ -121,8 +122,11 @@ class FileFrameGrabber(FrameGrabber):
                 _dhgr_decode if self.video_mode == VideoMode.DHGR else
                 _hgr_decode
             )
-            for _idx, _frame in enumerate(self._frame_grabber()):
-                q.put(decode(_idx, _frame))
+            try:
+                for _idx, _frame in enumerate(self._frame_grabber()):
+                    q.put(decode(_idx, _frame))
+            except Exception as e:
+                errors.append(e)
 
             q.put((None, None))
 
@@ -145,3 +149,5 @@ class FileFrameGrabber(FrameGrabber):
             q.task_done()
 
         t.join()
+        if errors:
+            raise errors[0]
-- 
2.43.0


From d3cd652bf1a781836d88900989f0fc916bf9107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 08/14] fix: keep audio duration independent of decoder block
 size

Each block the decoder returned was resampled on its own and its length
rounded up.  With the 8KB blocks of the ffmpeg backend this made audio, and
so the video clock, drift by about 2 seconds per hour.
---
 transcoder/audio.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index ab44605..cf45e0f 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -91,14 +91,29 @@ class Audio:
         :return:
         """
         with audioread.audio_open(self.filename) as f:
+            # Resample in units of a whole second.  The number of samples is
+            # rounded up each time we resample, so the audio would get longer
+            # than the video if this were done in arbitrary block sizes.
+            block_size = f.samplerate * f.channels * 2
+            pending = bytearray()
+
             for buf in f.read_data(128 * 1024):
-                a = self._decode(f, buf)
+                pending.extend(buf)
+                while len(pending) >= block_size:
+                    yield from self._speaker_levels(
+                        f, pending[:block_size])
+                    del pending[:block_size]
+
+            if pending:
+                yield from self._speaker_levels(f, pending)
 
-                a /= 16384  # normalize to -1.0 .. 1.0
-                a *= self.normalization
+    def _speaker_levels(self, f, buf) -> np.array:
+        """Convert block of raw audio to normalized speaker levels."""
+        a = self._decode(f, bytes(buf))
 
-                # Convert to -16 .. 16
-                a = (a * 16).astype(np.int)
-                a = np.clip(a, -15, 16)
+        a /= 16384  # normalize to -1.0 .. 1.0
+        a *= self.normalization
 
-                yield from a
+        # Convert to -16 .. 16
+        a = (a * 16).astype(np.int)
+        return np.clip(a, -15, 16)
-- 
2.43.0


From 1a136f7aa9bc8adb51fc3c0d62a43de0a80fcd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:36 +0000
Subject: [PATCH 09/14] fix: do not let rounding errors lengthen resampled
 audio

---
 transcoder/audio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index cf45e0f..66679ec 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -59,7 +59,10 @@ class Audio:
                              target_sr=self.sample_rate,
                              res_type='scipy', scale=True).flatten()
 
-        return a
+        # librosa computes this in floating point before rounding up, which
+        # e.g. for 48000 -> 14700 gives an extra sample per second
+        num_samples = -(-data.shape[1] * int(self.sample_rate) // f.samplerate)
+        return a[:num_samples]
 
     def _normalization(self, read_bytes=1024 * 1024 * 10):
         """Read first read_bytes of audio stream and compute normalization.
-- 
2.43.0


From 0d904b02f30a75c66f691ff687d147e85bcd8173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:58 +0000
Subject: [PATCH 10/14] fix: convert videos whose name has no suffix

---
 transcoder/frame_grabber.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 96096a8..603f740 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -45,8 +45,13 @@ class FileFrameGrabber(FrameGrabber):
 
     @staticmethod
     def _output_dir(filename, video_mode, palette) -> str:
+        base, suffix = os.path.splitext(filename)
+        if not suffix:
+            # There cannot be a directory with the name of the video itself
+            base += ".frames"
+
         return "%s/%s/%s" % (
-            os.path.splitext(filename)[0],
+            base,
             video_mode.name,
             palette.name)
 
-- 
2.43.0


From 948d91ca3c95a243e00565cb33be4f1769d5e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 11/14] fix: a video with an empty audio track could not be
 transcoded

Computing the normalization of no samples at all raised ValueError.
---
 transcoder/audio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index 66679ec..b4c5181 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -79,6 +79,10 @@ class Audio:
                 raw.extend(bytearray(buf))
                 if len(raw) > read_bytes:
                     break
+        if not raw:
+            # No audio at all: as for silence
+            return 1.
+
         a = self._decode(f, raw)
         norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
 
-- 
2.43.0


From 7df923e5c0023dbd7bb3c3517c9de4051ee17fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:43 +0000
Subject: [PATCH 12/14] fix: refuse UNKNOWN as a palette

It names no palette that videos can be encoded for, but was accepted, and
transcoding then failed with the output file already begun.
---
 transcoder/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transcoder/main.py b/transcoder/main.py
index 703d8b0..680ba0e 100644
--- a/transcoder/main.py
+++ b/transcoder/main.py
@@ -37,7 +37,7 @@ parser.add_argument(
     help='Video display mode to encode for (HGR/DHGR)'
 )
 parser.add_argument(
-    '--palette', type=str, choices=palette.Palette.__members__.keys(),
+    '--palette', type=str, choices=[p.name for p in palette.PALETTES],
     default=palette.Palette.NTSC.name,
     help='Video palette to encode for (default=NTSC)'
 )
-- 
2.43.0


From ff68ce59291259db5c2d706c071ec7185faeb47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:43 +0000
Subject: [PATCH 13/14] fix: use an audio normalization of 0 as given

It was taken for no normalization given.
---
 transcoder/audio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index b4c5181..070b256 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -42,7 +42,8 @@ class Audio:
         self.sample_rate = float(bitrate)  # type: float
 
         self.normalization = (
-                normalization or self._normalization())  # type: float
+            self._normalization() if normalization is None
+            else normalization)  # type: float
 
     def _decode(self, f, buf) -> np.array:
         """
-- 
2.43.0


From 240aaf287ab399df0f633f41145315545abee2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:10 +0000
Subject: [PATCH 14/14] fix: convert again a frame whose conversion was
 interrupted

A bmp2dhr killed while writing leaves part of its output behind, and every
later run took it for the converted frame and failed.
---
 transcoder/frame_grabber.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 603f740..2977e27 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -71,12 +71,17 @@ class FileFrameGrabber(FrameGrabber):
         q = queue.Queue(maxsize=10)
         errors = []
 
+        def _check_converted(_file):
+            # An interrupted conversion may have left part of a file behind
+            if os.stat(_file).st_size != 8192:
+                raise FileNotFoundError(_file)
+
         def _hgr_decode(_idx, _frame):
             outfile = "%s/%08dC.BIN" % (frame_dir, _idx)
             bmpfile = "%s/%08d.bmp" % (frame_dir, _idx)
 
             try:
-                os.stat(outfile)
+                _check_converted(outfile)
             except FileNotFoundError:
                 _frame = _frame.resize((280, 192), resample=Image.LANCZOS)
                 _frame.save(bmpfile)
@@ -100,8 +105,8 @@ class FileFrameGrabber(FrameGrabber):
             bmpfile = "%s/%08d.bmp" % (frame_dir, _idx)
 
             try:
-                os.stat(mainfile)
-                os.stat(auxfile)
+                _check_converted(mainfile)
+                _check_converted(auxfile)
             except FileNotFoundError:
                 _frame = _frame.resize((280, 192), resample=Image.LANCZOS)
                 _frame.save(bmpfile)
-- 
2.43.0


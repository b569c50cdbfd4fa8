"""Runs the real server on loopback.  VERIF_DATA: [sizes, operations] pairs."""

import fcntl
import json
import os
import random
import select
import signal
import socket
import struct
import subprocess
import sys
import time

import env

PATIENCE = 30


class Server:
    def __init__(self, path):
        self.path = path
        self.port = self.proc = None

    def start(self, port):
        self.port = port
        self.proc = subprocess.Popen(
            [sys.executable, "-W", "ignore",
             os.path.join(env.REPO, "server", "server.py"),
             self.path, "--port", str(port)],
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, cwd=env.SCRATCH,
            preexec_fn=env.die_with_parent)
        end = time.time() + PATIENCE
        while time.time() < end:
            if self.proc.poll() is not None:
                return False
            if listening(port):
                return True
            time.sleep(.02)
        return False

    def first(self):
        """On a port nobody has, and that no other driver takes."""
        rng = random.SystemRandom()
        for _ in range(50):
            port = rng.randrange(20000, 32000)
            self.lock = open(os.path.join(
                "/tmp", ".verif-port-%d" % port), "w")
            try:
                fcntl.flock(self.lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except OSError:
                continue
            if free(port):
                return self.start(port)
            self.release()
        raise RuntimeError("no free port")

    def release(self):
        os.unlink(self.lock.name)
        self.lock.close()

    def stop(self):
        self.proc.kill()
        self.proc.wait()


def free(port):
    with socket.socket() as s:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind(("0.0.0.0", port))
            return True
        except OSError:
            return False


def listening(port):
    want = ":%04X" % port
    for f in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            with open(f) as t:
                for line in t.readlines()[1:]:
                    w = line.split()
                    if w[1].endswith(want) and w[3] == "0A":
                        return True
        except OSError:
            pass
    return False


class Client:
    def __init__(self, port, rcvbuf):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(PATIENCE)
        self.ok = True
        self.data = bytearray()
        self.end = None
        try:
            self.s.connect(("127.0.0.1", port))
        except OSError:
            self.ok = False
            self.end = "refused"

    def read(self, n, patience):
        """Up to n bytes; stops at the end of the stream or when nothing
        comes for a while."""
        while n > 0 and self.end is None:
            if not select.select([self.s], [], [], patience)[0]:
                return "idle"
            try:
                d = self.s.recv(min(n, 1 << 16))
            except OSError:
                self.end = "reset"
                break
            if not d:
                self.end = "eof"
                break
            self.data += d
            n -= len(d)
        return self.end

    def hang_up(self, how):
        if how == "rst":
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                              struct.pack("ii", 1, 0))
        self.s.close()


def lcp(a, b):
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return n
    lo, hi = 0, n          # a[:lo] == b[:lo], a[:hi] != b[:hi]
    while hi - lo > 1:
        m = (lo + hi) // 2
        if a[lo:m] == b[lo:m]:
            lo = m
        else:
            hi = m
    return lo


def play(t, k, sizes, ops, rng):
    path = os.path.join(env.SCRATCH, "movie%d.a2m" % k)
    versions = [bytes(rng.getrandbits(8) for _ in range(min(n, 5003)))
                for n in sizes]
    versions = [(v * (n // max(len(v), 1) + 1))[:n]
                for v, n in zip(versions, sizes)]

    def put(v):
        with open(path + ".new", "wb") as f:
            f.write(versions[v - 1])
        os.replace(path + ".new", path)

    put(1)
    srv = Server(path)
    t.emit("Setup", sizes=sizes, up=srv.first())
    clients = []

    def seen(c):
        d = bytes(clients[c - 1].data)
        return dict(c=c, got=len(d), lcp=[lcp(d, v) for v in versions])

    def read(c, n, patience):
        x = clients[c - 1]
        if x.end is not None:
            return
        r = x.read(n, patience)
        if x.end is None:
            t.emit("Read", **seen(c))
        else:
            t.emit("End", how=x.end, **seen(c))
        return r

    def drain():
        for c, x in enumerate(clients, 1):
            while x.end is None:
                if x.read(1 << 30, PATIENCE) == "idle":
                    x.end = "stuck"
                t.emit("End", how=x.end, **seen(c))

    for op, c, *more in [(*o, None) for o in ops]:
        if op == "connect":
            clients.append(Client(srv.port, more[0]))
            t.emit("Connect", c=c, ok=clients[-1].ok)
        elif op == "read":
            read(c, more[0], .05)
        elif op == "close":
            if clients[c - 1].end is None:
                clients[c - 1].hang_up(more[0])
                clients[c - 1].end = "gone"
                t.emit("Close", c=c)
        elif op == "replace":
            put(c)
            t.emit("Replace", v=c)
        elif op == "restart":
            srv.stop()
            t.emit("Restart", up=srv.start(srv.port))
        elif op == "wait":
            time.sleep(c)
        elif op == "drain":
            drain()
        else:
            raise ValueError(op)
    drain()
    if srv.proc.poll() is None:
        srv.proc.send_signal(signal.SIGKILL)
    srv.proc.wait()
    srv.release()
    for x in clients:
        x.s.close()
    os.unlink(path)


def main(t, args):
    with open(os.environ["VERIF_DATA"]) as f:
        data = json.load(f)
    for k, (seed, sizes, ops) in enumerate(data):
        play(t, k, sizes, ops, random.Random(seed))

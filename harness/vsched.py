"""Deterministic scheduler for real worker processes.

Every worker is a forked process running the real code with `vshim.so` preloaded: it
stops before each file-system operation below the run directory (and at application
events such as "the evaluation function was entered") until the controller lets it go.
Only one worker runs at a time, so an execution is fully described by the sequence of
(worker, reply) decisions.  The controller knows nothing about how the code under test
is written; it sees operations on files, lock ownership, and the data on disk.
"""

from __future__ import annotations

import ctypes
import json
import os
import select
import signal
import socket
import subprocess
import sys
import time
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent


def build_shim(scratch: Path) -> Path:
    so = scratch / "vshim.so"
    if not so.exists():
        tmp = scratch / f"vshim.{os.getpid()}.so"
        subprocess.run(
            ["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", str(tmp), str(HERE / "vshim.c"),
             "-ldl", "-lpthread"],
            check=True,
        )
        os.replace(tmp, so)
    return so


_LIB = None


def shim():
    global _LIB
    if _LIB is None:
        lib = ctypes.CDLL(None)
        lib.vshim_present  # raises if LD_PRELOAD is not active
        lib.vshim_attach.argtypes = [ctypes.c_int, ctypes.c_char_p]
        lib.vshim_event.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
        lib.vshim_note.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
        _LIB = lib
    return _LIB


def emit(kind: str, data) -> None:
    """Called inside a worker: a blocking application event."""
    shim().vshim_event(kind.encode(), json.dumps(data).encode())


def note(kind: str, data) -> None:
    shim().vshim_note(kind.encode(), json.dumps(data)[:7000].encode())


class Hang(Exception):
    pass


class Worker:
    def __init__(self, idx: int, pid: int, sock: socket.socket):
        self.idx, self.pid, self.sock = idx, pid, sock
        self.buf = b""
        self.req: tuple[str, str, str, int] | None = None
        self.alive = True
        self.exit: str | None = None  # "done" | "raised" | "killed" | "died"
        self.info = None
        self.locks: set[str] = set()
        self.nops = 0

    def __repr__(self):
        return f"W{self.idx}({self.req})"


class Sched:
    """Runs one execution."""

    def __init__(self, root: Path, *, read_timeout: float = 120.0, max_ops: int = 60000):
        self.root = str(root)
        self.workers: list[Worker] = []
        self.read_timeout = read_timeout
        self.max_ops = max_ops
        self.total_ops = 0
        self.oplog: list[tuple[int, str, str, str]] = []
        self.listeners = []  # callables (sched, worker, phase)

    # ------------------------------------------------------------------ processes
    def spawn(self, fn) -> Worker:
        a, b = socket.socketpair()
        idx = len(self.workers)
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                for w in self.workers:
                    w.sock.close()
                devnull = os.open("/dev/null", os.O_RDWR)
                os.dup2(devnull, 0)
                if not os.environ.get("VERIF_CHILD_OUT"):
                    os.dup2(devnull, 1)
                    os.dup2(devnull, 2)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                shim().vshim_attach(b.fileno(), self.root.encode())
                try:
                    r = fn(idx)
                    note("result", r)
                except BaseException as e:  # noqa: BLE001
                    chain = []
                    x = e
                    while x is not None and len(chain) < 6:
                        chain.append([type(x).__name__, str(x)[:300]])
                        x = x.__cause__ or x.__context__
                    note("raised", {"chain": chain, "tb": traceback.format_exc()[-1500:]})
            finally:
                os._exit(0)
        b.close()
        w = Worker(idx, pid, a)
        self.workers.append(w)
        self._advance(w)
        return w

    def _advance(self, w: Worker) -> None:
        """Read from w until it blocks on a request or ends."""
        w.req = None
        while True:
            while b"\n" in w.buf:
                line, w.buf = w.buf.split(b"\n", 1)
                tag, kind, p, q, n = line.decode("utf-8", "replace").split("\t")
                if tag == "?":
                    w.req = (kind, p, q, int(n))
                    w.nops += 1
                    self.total_ops += 1
                    return
                if kind == "locked":
                    if int(n) == 0:
                        w.locks.add(p)
                elif kind == "unlocked":
                    w.locks.discard(p)
                elif kind == "result":
                    w.exit, w.info = "done", json.loads(p)
                elif kind == "raised":
                    w.exit = "raised"
                    try:
                        w.info = json.loads(p)
                    except ValueError:
                        w.info = {"chain": [["?", p[:500]]], "tb": ""}
            r, _, _ = select.select([w.sock], [], [], self.read_timeout)
            if not r:
                os.kill(w.pid, signal.SIGKILL)
                self._reap(w, "hang")
                return
            d = w.sock.recv(65536)
            if not d:
                self._reap(w, None)
                return
            w.buf += d

    def _reap(self, w: Worker, why: str | None) -> None:
        _, st = os.waitpid(w.pid, 0)
        w.alive = False
        w.locks.clear()
        w.sock.close()
        if why is not None:
            w.exit = why
        elif w.exit is None:
            w.exit = "killed" if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 137 else "died"

    # ------------------------------------------------------------------ scheduling
    def lock_holder(self, path: str, me: Worker) -> Worker | None:
        for o in self.workers:
            if o is not me and o.alive and path in o.locks:
                return o
        return None

    def runnable(self) -> list[Worker]:
        out = []
        for w in self.workers:
            if not w.alive or w.req is None:
                continue
            if w.req[0] == "lock" and self.lock_holder(w.req[1], w) is not None:
                continue
            out.append(w)
        return out

    def blocked(self) -> list[Worker]:
        r = self.runnable()
        return [w for w in self.workers if w.alive and w not in r]

    def step(self, w: Worker, reply: bytes = b"g") -> None:
        """Let w perform its pending operation and run up to the next one."""
        kind, p, q, n = w.req
        self.oplog.append((w.idx, kind, p, q))
        if self.total_ops > self.max_ops:
            raise Hang(f"no termination within {self.max_ops} operations")
        w.sock.sendall(reply)
        self._advance(w)

    def kill(self, w: Worker, partial: bool = False) -> None:
        self.oplog.append((w.idx, "CRASH", "", ""))
        try:
            w.sock.sendall(b"p" if partial else b"k")
        except OSError:
            pass
        self._advance(w)
        if w.alive:
            os.kill(w.pid, signal.SIGKILL)
            self._reap(w, "killed")

    def close(self) -> None:
        for w in self.workers:
            if w.alive:
                try:
                    os.kill(w.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                self._reap(w, "killed")

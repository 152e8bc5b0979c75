"""Client side of the persistent MPI servers: one per number of ranks."""

import atexit
import os
import select
import shutil
import subprocess
import tempfile

from harness.core import Violation
from harness.mpi_server import read, write

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = 60.0
_servers = {}


class Pipe:
    def __init__(self, path):
        # O_RDWR does not wait for the other side
        self.f = os.fdopen(os.open(path, os.O_RDWR), "rb", buffering=0)

    def fileno(self):
        return self.f.fileno()

    def read(self, n):
        buf = b""
        while len(buf) < n:
            part = self.f.read(n - len(buf))
            if not part:
                break
            buf += part
        return buf


class Server:
    def __init__(self, procs):
        self.procs = procs
        self.dir = tempfile.mkdtemp(prefix="verif-mpi-")
        for n in ("req", "rsp"):
            for i in range(procs):
                os.mkfifo(os.path.join(self.dir, f"{n}.{i}"))
        env = dict(os.environ, MUYGPYS_BACKEND="mpi", TMPDIR=self.dir)
        env.pop("MUYGPYS_FTYPE", None)
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.proc = subprocess.Popen(
            ["mpirun.openmpi", "--oversubscribe", "--bind-to", "none",
             "--mca", "mpi_yield_when_idle", "1", "-n", str(procs),
             "/opt/venv-mpi/bin/python", "-m", "harness.mpi_server", self.dir],
            cwd=ROOT, env=env, stdin=subprocess.DEVNULL, stdout=self.log,
            stderr=self.log)
        # O_RDWR so that opening does not wait; close-on-exec
        self.out = [os.fdopen(os.open(os.path.join(self.dir, f"req.{i}"),
                                      os.O_RDWR), "wb") for i in range(procs)]
        self.inp = [Pipe(os.path.join(self.dir, f"rsp.{i}"))
                    for i in range(procs)]

    def ask(self, op, case):
        """{rank: reply} of the ranks that replied."""
        for f in self.out:
            write(f, (op, case))
        got, waited, limit = {}, 0.0, LIMIT
        while len(got) < self.procs and waited < limit:
            rest = [p for i, p in enumerate(self.inp) if i not in got]
            ready, _, _ = select.select(rest, [], [], 0.5)
            for p in ready:
                i = self.inp.index(p)
                got[i] = read(p)
                if got[i][0] != "ok":  # the others may be waiting for it
                    limit = min(limit, waited + 3.0)
            if not ready:
                waited += 0.5
                if self.proc.poll() is not None:
                    break
        return got

    def stop(self):
        with open(os.path.join(self.dir, "log"), "rb") as f:
            text = f.read()[-1500:].decode(errors="replace")
        self.proc.terminate()
        try:
            self.proc.wait(10)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
        for f in self.out + [p.f for p in self.inp] + [self.log]:
            try:
                f.close()
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)
        return text


def _stop_all():
    for s in list(_servers.values()):
        s.stop()
    _servers.clear()


atexit.register(_stop_all)


def run(procs, op, case):
    """Per-rank results of one operation; a hang or a crash is a violation."""
    if procs not in _servers:
        new = Server(procs)
        if len(new.ask("ping", {})) < procs:
            raise OSError("MPI does not start: " + new.stop())
        _servers[procs] = new
    got = _servers[procs].ask(op, case)
    text = ""
    if len(got) < procs:
        text = _servers.pop(procs).stop()
    for rank, (kind, val) in sorted(got.items()):
        if kind != "ok":
            raise Violation(f"valid input refused on rank {rank} of {procs}: "
                            + val[-1500:])
    if len(got) < procs:
        raise Violation(f"only ranks {sorted(got)} of {procs} finished "
                        "(deadlock or crash) " + text)
    return [got[i][1] for i in range(procs)]

"""Client of the harness server (harness/src): one subprocess running the code under test."""
import os, select, subprocess, time, signal
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
               OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
               OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none",
               OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_plm="isolated",
               OMPI_MCA_oob_tcp_if_include="lo", OMPI_MCA_orte_tmpdir_base="/tmp",
               HWLOC_COMPONENTS="-gl", PMIX_MCA_gds="hash")


def base_env(threads=1):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "VH_"))}
    env.update(MPI_ENV)
    env["OMP_NUM_THREADS"] = str(threads)
    env["OMP_WAIT_POLICY"] = "passive"
    env["GOMP_SPINCOUNT"] = "0"
    # memory is handed out filled with 0x7f (1.4e306 as a number): values never set are noticed
    env["MALLOC_PERTURB_"] = "128"
    return env


def kill_sessions(sids):
    """Ends every process of these sessions (each started by this program with start_new_session)."""
    for p in os.listdir("/proc"):
        if not p.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % p) as f:
                sid = int(f.read().rsplit(")", 1)[1].split()[3])
            if sid in sids:
                os.kill(int(p), signal.SIGKILL)
        except (OSError, IndexError, ValueError):
            pass


def started(pid):
    """Remembers a session for the end of the whole check."""
    top = os.environ.get("VH_SCRATCH")
    if top and os.path.isdir(top):
        with open(os.path.join(top, "sessions"), "a") as f:
            f.write("%d\n" % pid)


def end_sessions(top):
    try:
        with open(os.path.join(top, "sessions")) as f:
            kill_sessions({int(l) for l in f})
    except OSError:
        pass


MPIRUN = ["mpirun", "--oversubscribe", "--bind-to", "none"]


class HarnessError(Exception):
    """The harness itself was misused: never a verdict."""


class Refused(Exception):
    """The code under test answered with an exception."""


class Alone(Refused):
    """One process of a group failed while the others were waiting for it."""


class Died(Exception):
    """The process ended (signal, abort) or gave no answer."""


class Resp:
    def __init__(self, kv, arr):
        self.kv, self.arr = kv, arr

    def __getitem__(self, k):
        return self.arr[k]

    def f(self, k):
        return float.fromhex(self.kv[k])

    def i(self, k):
        return int(self.kv[k])

    def s(self, k):
        return self.kv[k]


def _esc(s):
    return s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")


def _unesc(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            i += 1
            out.append({"n": "\n", "t": "\t", "r": "\r"}.get(s[i], s[i]))
        else:
            out.append(s[i])
        i += 1
    return "".join(out)


class Server:
    def __init__(self, build, np_=1, threads=1, exe="alsh", timeout=60, cwd=None, env=None):
        self.exe, self.np, self.threads = os.path.join(build, exe), np_, threads
        self.timeout, self.cwd, self.extra = timeout, cwd, env or {}
        self.p = None
        self.buf = b""
        self.stderr_path = None

    def start(self):
        cmd = [self.exe]
        if self.np > 1:
            cmd = MPIRUN + ["-np", str(self.np)] + cmd
        env = base_env(self.threads)
        if self.np > 1:
            del env["MALLOC_PERTURB_"]  # halves the number of cases
        env.update(self.extra)
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd=self.cwd,
                                  start_new_session=True)
        started(self.p.pid)
        self.buf = b""

    def stop(self):
        if self.p is None:
            return
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.kill()
        self.p = None

    def kill(self):
        if self.p is None:
            return None
        if self.np > 1:
            kill_sessions({self.p.pid})
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        rc = self.p.wait()
        self.p = None
        return rc

    def _more(self, end):
        left = end - time.time()
        if left <= 0:
            self.kill()
            raise Died("no answer within %d s" % self.timeout)
        r, _, _ = select.select([self.p.stdout], [], [], left)
        if r:
            b = os.read(self.p.stdout.fileno(), 1 << 20)
            if not b:
                try:
                    rc = self.p.wait(10)
                except subprocess.TimeoutExpired:
                    rc = None
                self.kill()
                raise Died("process ended with status %s" % rc)
            self.buf += b

    def call(self, op, arrays=None, **kv):
        if self.p is None:
            self.start()
        head = op
        for k, v in kv.items():
            if isinstance(v, (float, np.floating)):
                v = float(v).hex()
            elif isinstance(v, bool):
                v = int(v)
            head += "\t%s=%s" % (k, _esc(str(v)))
        data = b""
        for k, a in (arrays or {}).items():
            a = np.ascontiguousarray(a, dtype="<f8").ravel()
            head += "\t@%s=%d" % (k, a.size)
            data += a.tobytes()
        end = time.time() + self.timeout
        try:
            self.p.stdin.write(head.encode() + b"\n" + data)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self._more(end)
            raise Died("process ended")
        while b"\n" not in self.buf:
            self._more(end)
        line, self.buf = self.buf.split(b"\n", 1)
        parts = line.decode("utf8", "replace").split("\t")
        d, arr, sizes = {}, {}, []
        for p in parts[1:]:
            k, v = p.split("=", 1)
            if k[0] == "@":
                sizes.append((k[1:], int(v)))
            else:
                d[k] = _unesc(v)
        need = 8 * sum(n for _, n in sizes)
        while len(self.buf) < need:
            self._more(end)
        pos = 0
        for k, n in sizes:
            arr[k] = np.frombuffer(self.buf[pos:pos + 8 * n], dtype="<f8").copy()
            pos += 8 * n
        self.buf = self.buf[need:]
        if parts[0] == "fatal":
            self.kill()
            raise Alone("process %s of %d fails alone: %s" % (d.get("rank"), self.np, d.get("what", "")))
        if parts[0] != "ok":
            if d.get("kind") == "harness":
                raise HarnessError(d.get("what"))
            raise Refused(d.get("what", ""))
        return Resp(d, arr)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()

"""Worker processes: contracts are explored, their obligations discharged and the concrete cases run by forked workers.

A token pipe bounds the processes at work.  Each worker starts from the state of the parent before any contract, so that
the outcome of a contract does not depend on the other contracts.
"""
import os, pickle, select, shutil, signal, sys, tempfile

N = int(os.environ.get("VF_JOBS", "0") or 0) or max(1, min(8, len(os.sched_getaffinity(0))))


class Tokens:
    def __init__(self, n):
        self.r, self.w = os.pipe()
        os.write(self.w, b"t" * n)

    def take(self):
        while True:
            try:
                os.read(self.r, 1)
                return
            except InterruptedError:
                pass

    def try_take(self):
        if select.select([self.r], [], [], 0)[0]:
            os.read(self.r, 1)
            return True
        return False

    def give(self):
        os.write(self.w, b"t")


TOKENS = None


def tokens():
    global TOKENS
    if TOKENS is None:
        TOKENS = Tokens(N)
    return TOKENS


class Task:
    """fn() in a forked worker; the caller holds a token for it, given back when the worker ends."""

    def __init__(self, fn):
        sys.stdout.flush()
        self.path = tempfile.mktemp(dir=scratch())
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                out = fn()
                with open(self.path + ".part", "wb") as f:
                    pickle.dump(out, f)
                os.rename(self.path + ".part", self.path)
            except BaseException as e:  # noqa: B902
                if os.environ.get("VF_DEBUG"):
                    import traceback
                    traceback.print_exc()
                with open(self.path + ".err", "w") as f:
                    f.write(f"{type(e).__name__}: {e}")
            finally:
                sys.stdout.flush()
                tokens().give()
                os._exit(0)

    def result(self):
        """(value, None) or (None, why)."""
        _, status = os.waitpid(self.pid, 0)
        if status != 0:
            tokens().give()  # the worker died without giving its token back
            return None, f"worker ended by status {status}"
        if os.path.exists(self.path):
            with open(self.path, "rb") as f:
                return pickle.load(f), None
        why = open(self.path + ".err").read() if os.path.exists(self.path + ".err") else "no result"
        return None, why


_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="vf.")
    return _SCRATCH


def cleanup():
    if _SCRATCH is not None:
        shutil.rmtree(_SCRATCH, ignore_errors=True)


def submit(fn):
    tokens().take()
    return Task(fn)


def share(items, work):
    """[work(i) for i in items], with helpers forked while tokens are free; the caller works too."""
    items = list(items)
    out = {}
    if len(items) < 2 or N == 1:
        return [work(i) for i in items]
    r, w = os.pipe()
    if len(items) * 4 > 60000:
        return [work(i) for i in items]
    os.write(w, b"".join(k.to_bytes(4, "big") for k in range(len(items))))
    os.close(w)

    def drain(helpers):
        got = {}
        while True:
            if helpers is not None and len(helpers) < N and select.select([r], [], [], 0)[0] and tokens().try_take():
                helpers.append(Task(lambda: drain(None)))
            b = os.read(r, 4)
            if len(b) < 4:
                return got
            k = int.from_bytes(b, "big")
            got[k] = work(items[k])
    helpers = []
    out.update(drain(helpers))
    for h in helpers:
        v, why = h.result()
        out.update(v or {})
    os.close(r)
    # what a lost worker had taken
    return [out[k] if k in out else work(items[k]) for k in range(len(items))]

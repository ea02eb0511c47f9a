"""Exploration of every decision sequence by forking at the decisions (shared prefixes are analysed once)."""
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .terms import Oracle, Imprecise, _neg_facts, DD
from .values import AbsRaise, PathDone


def as_text(x):
    if x is None or isinstance(x, (str, bool, int, float)):
        return x
    s = str(x)
    return s if len(s) <= 600 else s[:600] + " ..."


class ForkOracle(Oracle):
    def __init__(self, ctx, assume=None):
        super().__init__((), assume)
        self.ctx = ctx
        self.kids = []
        self.token = False

    def decide(self, v):
        while isinstance(v, DD):
            d = self.facts.decide(v.c)
            if d is None and self.assume is not None:
                d = self.assume(v.c)
                if d is not None and getattr(self.assume, 'record', False):
                    self.facts = _neg_facts(self.facts, v.c, d)
            if d is None:
                d = self.split()
                self.made.append(d)
                self.log.append((v.c, d))
                self.facts = _neg_facts(self.facts, v.c, d)
            v = v.hi if d else v.lo
        return v

    def split(self):
        """True here, False in a child process."""
        if len(self.log) > 500:
            raise Imprecise('a path does not end within 500 decisions')
        r, _, folder = self.ctx
        token = bool(select.select([r], [], [], 0)[0])
        if token:
            try:
                os.read(r, 1)
            except BlockingIOError:
                token = False
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            self.kids = []
            self.token = token
            return False
        if token:
            self.kids.append(pid)
        else:
            self.reap(pid)
        return True

    def reap(self, pid):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            with open(os.path.join(self.ctx[2], 'lost%d' % pid), 'wb') as f:
                pickle.dump([('error', 'a path of the analysis ended with status %d' % st)], f)

    def finish(self, res):
        # terms mean nothing outside this process: violations travel as text
        res = [tuple(as_text(x) for x in q) if isinstance(q, tuple) and q and q[0] == 'viol' else q for q in res]
        with open(os.path.join(self.ctx[2], 'r%d' % os.getpid()), 'wb') as f:
            pickle.dump(res, f)
        if self.token:
            os.write(self.ctx[1], b'x')
        for p in self.kids:
            self.reap(p)


def explore(run, assume=None, nproc=None, timeout=800):
    """[results of run(oracle)] over every feasible decision sequence; run returns a list."""
    nproc = nproc or min(8, max(2, os.cpu_count() or 2))
    folder = tempfile.mkdtemp(prefix='paths')
    r, w = os.pipe()
    os.set_blocking(r, False)
    os.write(w, b'x' * (nproc - 1))
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        root = os.fork()
        if root == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                o = ForkOracle((r, w, folder), assume)
                try:
                    res = run(o)
                except AbsRaise:
                    res = [('dead', None)]
                except PathDone:
                    res = [('covered', None)]
                except Imprecise as e:
                    res = [('error', str(e))]
                except RecursionError:
                    res = [('error', 'recursion limit')]
                except Exception as e:
                    tb = traceback.extract_tb(sys.exc_info()[2])[-1]
                    if os.environ.get('SA_DEBUG'):
                        traceback.print_exc()
                    res = [('error', 'analysis gap %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))]
                o.finish(res)
                code = 0
            finally:
                sys.stdout.flush()
                os._exit(code)
        t0 = time.time()
        while True:
            p, st = os.waitpid(root, os.WNOHANG)
            if p:
                break
            if time.time() - t0 > timeout:
                os.killpg(root, signal.SIGKILL)
                os.waitpid(root, 0)
                raise Imprecise('path exploration took more than %d s' % timeout)
            time.sleep(0.02)
        if st != 0:
            raise Imprecise('path exploration ended with status %d' % st)
        out = []
        for n in sorted(os.listdir(folder)):
            with open(os.path.join(folder, n), 'rb') as f:
                out.append(pickle.load(f))
        return out
    finally:
        os.close(r)
        os.close(w)
        shutil.rmtree(folder, ignore_errors=True)

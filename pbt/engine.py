"""Facets, shards, shrinking, replay and evidence.

A facet is a Hypothesis strategy producing JSON values ("cases") and a check of one case.  The check
compares the code in /repo with an oracle and raises Violation.  Shards of a facet run in forked
processes, each a pure function of (code, facet, VERIF_SEED, shard number).
"""
import hashlib
import json
import math
import os
import pickle
import select
import signal
import sys
import time
import traceback
import zlib
from collections import Counter

from . import bootstrap

FACETS = {}


class Violation(Exception):
    pass


class Discard(Exception):
    """The case is outside the domain of the facet."""


class Facet:
    def __init__(self, pid, name, strategy, check, quick, thorough, rule, pinned):
        self.pid, self.name, self.strategy, self.check = pid, name, strategy, check
        self.quick, self.thorough, self.rule, self.pinned = quick, thorough, rule, pinned


def facet(pid, name, strategy, quick=1000, thorough=None, rule='every case', pinned=()):
    def deco(f):
        FACETS.setdefault(pid, {})[name] = Facet(
            pid, name, strategy, f, quick, thorough or quick * 25, rule, list(pinned))
        return f
    return deco


class Ctx:
    def __init__(self):
        self.labels = Counter()
        self.flag = False

    def label(self, *names):
        for n in names:
            self.labels[str(n)] += 1

    def nt(self, cond=True):
        """Mark the case as non-trivial (by the facet's rule)."""
        if cond:
            self.flag = True


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.hashes = set()
        self.labels = Counter()
        self.samples = []

    def merge(self, o):
        self.evaluations += o.evaluations
        self.discarded += o.discarded
        self.hashes |= o.hashes
        self.labels.update(o.labels)
        self.samples += o.samples


def canonical(case):
    return json.loads(json.dumps(case))


def run_case(f, case, stats=None):
    """Run one case; returns None or a violation message."""
    ctx = Ctx()
    try:
        f.check(case, ctx)
    except Discard:
        if stats is not None:
            stats.discarded += 1
        return None
    except Violation as v:
        return str(v)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as exc:
        # A result the check cannot work with (there are none on a tree where the property holds).
        return 'unexpected %s: %s\n%s' % (
            type(exc).__name__, exc, ''.join(traceback.format_tb(exc.__traceback__)[-4:]))
    if stats is not None:
        stats.evaluations += 1
        stats.labels.update(ctx.labels)
        if ctx.flag:
            s = json.dumps(case)
            h = hashlib.blake2b(s.encode(), digest_size=8).digest()
            if h not in stats.hashes:
                stats.hashes.add(h)
                if len(s) < 1500 and len(stats.samples) < 40:
                    stats.samples.append(case)
    return None


class _Failed(Exception):
    pass


def shard_seed(f, seed, shard):
    return zlib.crc32(f'{f.pid}/{f.name}/{seed}/{shard}'.encode())


def run_shard(f, seed, shard, n):
    """Returns (stats, failure) with failure = None or dict(case, message)."""
    stats = Stats()
    if shard == -1:
        for case in f.pinned:
            case = canonical(case)
            msg = run_case(f, case, stats)
            if msg:
                return stats, dict(case=case, message=msg)
        return stats, None
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45
    # Independent draws find more here than repeated small mutations of one case.
    eng.ConjectureRunner.generate_mutations_from = lambda self, data: None
    last = {}

    def body(case):
        case = canonical(case)
        failing = bool(last)
        msg = run_case(f, case, None if failing else stats)
        if msg:
            last['case'], last['message'] = case, msg
            raise _Failed(f.name)

    test = hypothesis.given(f.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
                    phases=(Phase.generate,) if os.environ.get('VERIF_NOSHRINK') else (Phase.generate, Phase.shrink), print_blob=False)(test)
    test = hypothesis.seed(shard_seed(f, seed, shard))(test)
    # Hypothesis patches nothing of the library; its own output is not wanted.
    try:
        test()
    except _Failed:
        return stats, dict(last)
    except BaseException as exc:  # Flaky and friends: the last failing case still counts
        if last and type(exc).__module__.startswith('hypothesis'):
            return stats, dict(last, flaky=True)
        raise
    return stats, None


# ---------------------------------------------------------------------------------- processes

def _child(fd, fn, args):
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        try:
            out = ('ok', fn(*args))
        except BaseException:
            out = ('error', traceback.format_exc())
        with os.fdopen(fd, 'wb') as w:
            w.write(pickle.dumps(out))
    finally:
        os._exit(0)


class Pool:
    """Forked workers, one per job; results in job order."""

    def __init__(self, jobs, fn, width, deadline):
        self.jobs, self.fn, self.width, self.deadline = list(jobs), fn, width, deadline

    def results(self):
        running, done, nxt, out = {}, {}, 0, 0
        try:
            while out < len(self.jobs):
                while nxt < len(self.jobs) and len(running) < self.width:
                    r, w = os.pipe()
                    sys.stdout.flush()
                    sys.stderr.flush()
                    pid = os.fork()
                    if pid == 0:
                        os.close(r)
                        _child(w, self.fn, self.jobs[nxt])
                    os.close(w)
                    running[r] = (nxt, pid, bytearray())
                    nxt += 1
                ready, _, _ = select.select(list(running), [], [], 1.0)
                if time.time() > self.deadline:
                    raise TimeoutError
                for r in ready:
                    data = os.read(r, 1 << 20)
                    i, pid, buf = running[r]
                    if data:
                        buf += data
                        continue
                    os.close(r)
                    del running[r]
                    _, status = os.waitpid(pid, 0)
                    if os.WIFSIGNALED(status):
                        done[i] = ('signal', os.WTERMSIG(status))
                    else:
                        try:
                            done[i] = pickle.loads(bytes(buf))
                        except Exception:
                            done[i] = ('error', 'worker returned nothing')
                while out in done:
                    yield self.jobs[out], done.pop(out)
                    out += 1
        finally:
            for r, (i, pid, buf) in running.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass


def isolated(fn, *args, timeout=300):
    for _, res in Pool([args], fn, 1, time.time() + timeout).results():
        return res

"""Obligations and their discharge."""
import os, sys, time, traceback, signal, pickle, select
from values import Unsupported
from terms import TermTooBig


class Ob:
    """One proof obligation generated from the crate's current source.
    id: name; fns: contracts/functions it is about; text: what is proved; scope: 'unbounded' or the stated bound"""

    def __init__(self, id, fns, text, run, scope='unbounded', timeout=60, critical=True):
        self.id = id
        self.fns = fns
        self.text = text
        self.run = run
        self.scope = scope
        self.timeout = timeout


class Res:
    def __init__(self, status, detail='', cex=None):
        self.status = status       # proved refuted unknown
        self.detail = detail
        self.cex = cex
        self.used = []
        self.backend = ''
        self.secs = 0.0
        self.assumptions = []
        self.queries = 0


class Refuted(Exception):
    def __init__(self, detail, cex=None):
        self.detail = detail
        self.cex = cex


class Undecided(Exception):
    pass


SESSIONS = []


def run_one(ob):
    import harn
    del SESSIONS[:]
    t0 = time.time()
    try:
        r = ob.run()
        if r is None:
            r = Res('proved')
        elif isinstance(r, str):
            r = Res('proved', r)
    except Refuted as e:
        r = Res('refuted', e.detail, e.cex)
    except (Unsupported, TermTooBig, Undecided) as e:
        r = Res('unknown', '%s: %s' % (type(e).__name__, e))
    except RecursionError as e:
        r = Res('unknown', 'recursion limit')
    except MemoryError:
        r = Res('unknown', 'out of memory')
    except Exception as e:
        r = Res('unknown', 'internal: ' + traceback.format_exc()[-1500:])
    r.secs = time.time() - t0
    used = {}
    for h in SESSIONS:
        for k, v in h.ex.used.items():
            used[k] = used.get(k, 0) + v
        r.assumptions += sorted(h.ex.assumptions)
        pass
    import solver
    r.queries = solver.STATS['queries']
    r.used = sorted(used)
    r.assumptions = sorted(set(map(str, r.assumptions)))
    r.backend = 'polynomial identities: %d (randomised identity test: %d); SMT queries: %d' % (
        harn.STAT['ident'], harn.STAT['pit'], r.queries)
    r.ident = harn.STAT['ident']
    r.pit = harn.STAT['pit']
    return r


def run_all(obs, jobs=8, deadline=None, mem_gb=6):
    """run each obligation in its own forked process, with its timeout"""
    pend = list(obs)
    live = {}
    out = {}
    while pend or live:
        while pend and len(live) < jobs:
            ob = pend.pop(0)
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rfd)
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
                    sys.setrecursionlimit(12000)
                    r = run_one(ob)
                    data = pickle.dumps(r)
                    with os.fdopen(wfd, 'wb') as f:
                        f.write(data)
                except BaseException:
                    pass
                finally:
                    os._exit(0)
            os.close(wfd)
            live[rfd] = (ob, pid, time.time(), bytearray())
        rs, _, _ = select.select(list(live), [], [], 0.25)
        now = time.time()
        for fd in rs:
            ob, pid, t0, buf = live[fd]
            d = os.read(fd, 1 << 20)
            if d:
                buf += d
                continue
            os.close(fd)
            del live[fd]
            os.waitpid(pid, 0)
            try:
                out[ob.id] = pickle.loads(bytes(buf))
            except Exception:
                out[ob.id] = Res('unknown', 'worker died')
        for fd in list(live):
            ob, pid, t0, buf = live[fd]
            if now - t0 > ob.timeout or (deadline and now > deadline):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                r = Res('unknown', 'time limit of %.0f s' % (now - t0))
                r.secs = now - t0
                out[ob.id] = r
        if deadline and now > deadline:
            for ob in pend:
                out[ob.id] = Res('unknown', 'not started: time budget used up')
            pend = []
    return out

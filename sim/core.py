"""Core of the deterministic simulator: run context, process incarnations, event log, violations."""
import hashlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import shim

T0_NS = 1_700_000_000 * 10**9


class Violation(Exception):
    """A property was broken. cls is a stable short class used for minimisation and known findings."""

    def __init__(self, cls, msg):
        Exception.__init__(self, f'{cls}: {msg}')
        self.cls = cls
        self.msg = msg

    def __reduce__(self):
        return (Violation, (self.cls, self.msg))


class HarnessError(Exception):
    pass


def check(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg() if callable(msg) else msg)


def sha(*things):
    h = hashlib.sha256()
    for t in things:
        h.update(t if isinstance(t, bytes) else repr(t).encode())
    return h.hexdigest()[:16]


REPO_MARK = os.sep + 'resqpy' + os.sep


def raised_in_resqpy(tb_exc):
    """True if any frame of the exception below the harness lies in resqpy code."""
    tb = tb_exc.__traceback__
    while tb is not None:
        if REPO_MARK in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def seed_process(seed, clock_ns = None, step_ns = 1000):
    """Make every source of nondeterminism of this process a function of seed."""
    import uuid
    L = shim.lib()
    L.simio_clock(1, clock_ns if clock_ns is not None else T0_NS, step_ns)
    L.simio_rand(1, seed & 0xffffffffffff)
    uuid._generate_time_safe = None
    uuid._UuidCreate = None
    uuid._node = 0x0242ac110002
    uuid._last_timestamp = None
    random.seed(seed)
    import numpy as np
    np.random.seed(seed & 0xffffffff)


class Incarnation:

    def __init__(self, status, acks, result, exc):
        self.status = status  # 'ok' | 'crash' | 'violation' | 'raised' | 'harness'
        self.acks = acks
        self.result = result
        self.exc = exc


class Ctx:
    """One simulated run."""

    def __init__(self, root, seed):
        self.root = root
        self.seed = seed
        self.dir = os.path.join(root, 'd')
        os.makedirs(self.dir, exist_ok = True)
        self.events = []
        self.probes = {}
        self.fired = {}
        self.iocounts = {}
        self.states = set()
        self.sim_ns = 0
        self.steps = 0
        self.incarnations = 0
        self._send = None
        self.clock_ns = T0_NS

    # --- recording
    def probe(self, name, n = 1):
        self.probes[name] = self.probes.get(name, 0) + n

    def event(self, *what):
        self.events.append(repr(what))
        self.steps += 1

    def state(self, s):
        self.states.add(s if isinstance(s, str) and len(s) <= 24 else sha(s))

    def path(self, name):
        return os.path.join(self.dir, name)

    # --- simulated processes
    def ack(self, obj):
        """Within an incarnation: tell the outside world something is done (survives a crash)."""
        b = pickle.dumps(('ack', obj))
        os.write(self._send, len(b).to_bytes(8, 'little') + b)

    def process(self, fn, *args, faults = (), clock_step_ns = 1000, fresh = True, **kwargs):
        """Run fn(ctx, *args) in a simulated process whose working directory is the simulated disk; faults are
        armed from its start (fn may arm more).

        With fresh, the process shares nothing with earlier ones but the files; otherwise it is a fork of the
        calling simulated process."""
        self.incarnations += 1
        inc_seed = (self.seed * 1000003 + self.incarnations * 7919) & 0x7fffffffffff
        r, w = os.pipe()
        L = shim.lib()
        L.simio_push()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            self._child(w, fn, args, kwargs, faults, inc_seed if fresh else None, clock_step_ns, None)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        crashed, sh_fired, sh_counts = L.simio_crashed(), shim.fired(), shim.counts()
        L.simio_pop()
        return self._collect(data, st, crashed, sh_fired, sh_counts, fresh)

    def _child(self, w, fn, args, kwargs, faults, inc_seed, clock_step_ns, sock):
        """The life of a simulated process, from fork to exit."""
        code = 0
        L = shim.lib()
        try:
            self._send = w
            self.events, self.probes, self.states, self.steps = [], {}, set(), 0
            self.fired, self.iocounts, self.sim_ns = {}, {}, 0
            n0 = self.incarnations
            os.chdir(self.dir)
            L.simio_root(self.dir.encode())
            L.simio_reset()
            if inc_seed is not None:
                seed_process(inc_seed, self.clock_ns, clock_step_ns)
            if sock is not None:
                self.seed = inc_seed  # processes it starts are not to resemble those of its siblings
                L.simio_sched(sock)
                L.simio_yield()
            shim.arm(faults)
            L.simio_on(1)
            out = None
            try:
                res = fn(self, *args, **kwargs)
                out = ('ok', res, None)
            except Violation as v:
                out = ('violation', None, (v.cls, v.msg))
            except BaseException as e:
                kind = 'raised' if raised_in_resqpy(e) else 'harness'
                out = (kind, None, (type(e).__name__, str(e)[:400], traceback.format_exc()[-3000:]))
            L.simio_on(0)
            tail = dict(events = self.events, probes = self.probes, states = self.states, steps = self.steps, now = L.simio_clock_now(),
                        fired = _plus(shim.fired(), self.fired), io = _plus(shim.counts(), self.iocounts), inc = self.incarnations - n0,
                        sub_ns = self.sim_ns)
            b = pickle.dumps(('end', out, tail))
            _write_all(w, len(b).to_bytes(8, 'little') + b)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)

    def _collect(self, data, st, crashed, sh_fired, sh_counts, fresh):
        """What became of a simulated process which has ended."""
        acks, out, tail = [], None, None
        pos = 0
        while pos + 8 <= len(data):
            n = int.from_bytes(data[pos:pos + 8], 'little')
            if pos + 8 + n > len(data):
                break
            m = pickle.loads(data[pos + 8:pos + 8 + n])
            pos += 8 + n
            if m[0] == 'ack':
                acks.append(m[1])
            else:
                out, tail = m[1], m[2]
        if out is None:
            self.clock_ns += 10**9
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 137 and crashed:
                self.fired = _plus(self.fired, sh_fired)
                self.iocounts = _plus(self.iocounts, sh_counts)
                self.event('inc', 'crash', len(acks), sorted(sh_counts.items()))
                self.probe('process-crash')
                return Incarnation('crash', acks, None, None)
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS):
                self.event('inc', 'died', os.WTERMSIG(st))
                return Incarnation('died', acks, None, ('signal', os.WTERMSIG(st), ''))
            raise HarnessError(f'incarnation ended with status {st} and no report')
        self.events.append(repr(('inc', out[0], len(acks), sha(*tail['events']), sorted(tail['io'].items()))))
        if os.environ.get('VSIM_TRACE'):
            self.events += ['  ' + e for e in tail['events']]
        self.steps += tail['steps']
        self.states |= tail['states']
        self.incarnations += tail['inc']
        self.probes = _plus(self.probes, tail['probes'])
        self.fired = _plus(self.fired, tail['fired'])
        self.iocounts = _plus(self.iocounts, tail['io'])
        if fresh:
            self.sim_ns += max(0, tail['now'] - self.clock_ns) + tail['sub_ns']
            self.clock_ns = max(tail['now'], self.clock_ns) + 10**9
        return Incarnation(out[0], acks, out[1], out[2])

    def concurrently(self, specs, sched, max_steps = 200000):
        """Run several simulated processes at once, only one of which ever executes: control passes from one to
        another at file system calls and sleeps, as sched says. Returns their incarnations.

        specs: dicts with fn, args and optionally kwargs, faults, fresh (default True: a fork of the caller otherwise);
        sched: list of (gap, choice) - after gap further calls of the process which has control, the choice-th other
        process which is able to run gets it; once exhausted, each process runs until it sleeps or ends.
        """
        import socket
        import struct
        L = shim.lib()
        nested = L.simio_sched_fd() >= 0
        inside = self._send is not None
        procs = []
        now = L.simio_clock_now() if inside else self.clock_ns
        base_clock = self.clock_ns
        self.clock_ns = now
        for i, sp in enumerate(specs):
            self.incarnations += 1
            inc_seed = (self.seed * 1000003 + self.incarnations * 7919) & 0x7fffffffffff
            mine, theirs = socket.socketpair()
            mem = os.memfd_create('inc')
            L.simio_push()
            pid = os.fork()
            if pid == 0:
                mine.close()
                for p in procs:
                    p['sock'].close()
                self._child(mem, sp['fn'], sp.get('args', ()), sp.get('kwargs', {}), sp.get('faults', ()), inc_seed, 1000, theirs.detach())
            theirs.close()
            page = L.simio_detach()
            p = dict(i = i, pid = pid, sock = mine, mem = mem, page = page, wake = 0, done = False)
            procs.append(p)
            self._await(p, struct)
        plan = list(sched)
        gap, choice = plan.pop(0) if plan else (1 << 60, 0)
        cur, trace, steps, switches = None, [], 0, 0
        while True:
            live = [p for p in procs if not p['done']]
            if not live:
                break
            ready = [p for p in live if p['wake'] <= now]
            if not ready:
                t = min(p['wake'] for p in live)
                if nested:
                    time.sleep((t - now) / 1e9)
                    now = max(now, L.simio_clock_now(), t)
                else:
                    now = t
                continue
            steps += 1
            if steps > max_steps:
                for p in live:
                    os.kill(p['pid'], signal.SIGKILL)
                raise Violation('no-progress', f'concurrent processes have not ended after {max_steps} steps')
            if nested and steps % 7 == 0:
                L.simio_yield()
                now = max(now, L.simio_clock_now())
            if gap <= 0:
                others = [p for p in ready if p is not cur] or ready
                nxt = others[choice % len(others)]
                gap, choice = plan.pop(0) if plan else (1 << 60, 0)
            elif cur in ready:
                nxt = cur
                gap -= 1
            else:
                nxt = ([p for p in ready if cur is not None and p['i'] > cur['i']] or ready)[0]
            if nxt is not cur:
                trace.append((steps, nxt['i']))
                switches += 1
            cur = nxt
            try:
                cur['sock'].sendall(struct.pack('q', now))
            except OSError:
                pass
            clk = self._await(cur, struct)
            if clk is not None:
                now = max(now, clk)
        out = []
        for p in procs:
            _, st = os.waitpid(p['pid'], 0)
            p['sock'].close()
            data = b''
            os.lseek(p['mem'], 0, os.SEEK_SET)
            while True:
                b = os.read(p['mem'], 1 << 20)
                if not b:
                    break
                data += b
            os.close(p['mem'])
            L.simio_attach(p['page'])
            crashed, sh_fired, sh_counts = L.simio_crashed(), shim.fired(), shim.counts()
            L.simio_pop()
            out.append(self._collect(data, st, crashed, sh_fired, sh_counts, False))
        self.event('schedule', trace)
        self.probe('switches', switches)
        self.probe('scheduling-points', steps)
        if inside:
            self.clock_ns = base_clock
            d = now - L.simio_clock_now()
            if d > 0:
                L.simio_clock_jump(d)
        else:
            self.sim_ns += now - base_clock
            self.clock_ns = now + 10**9
        return out

    def _await(self, p, struct):
        """Wait for the process which has control to give it back; returns its clock, or None if it has ended."""
        b = b''
        while len(b) < 32:
            x = p['sock'].recv(32 - len(b))
            if not x:
                p['done'] = True
                return None
            b += x
        kind, cls, clk, wake = struct.unpack('4q', b)
        p['wake'] = wake if kind == 2 else 0
        return clk

    def branch(self, n):
        """A copy of the simulated disk, for a branch of history; use its process() and then merge it."""
        b = Ctx.__new__(Ctx)
        b.__dict__.update(self.__dict__)
        b.dir = os.path.join(self.root, f'b{n}.{os.getpid()}')
        shutil.copytree(self.dir, b.dir, symlinks = True)
        return b

    def merge(self, b):
        for k in ('incarnations', 'steps', 'sim_ns', 'fired', 'probes', 'iocounts'):
            setattr(self, k, getattr(b, k))
        shutil.rmtree(b.dir, ignore_errors = True)

    def run_ok(self, fn, *args, **kwargs):
        """Run an incarnation that must finish without raising (no faults armed)."""
        inc = self.process(fn, *args, **kwargs)
        return settle(inc)


def settle(inc, allow_crash = False):
    """Turn an unwanted incarnation outcome into a Violation / HarnessError; return its result."""
    if inc.status == 'ok':
        return inc.result
    if inc.status == 'violation':
        raise Violation(*inc.exc)
    if inc.status == 'raised':
        raise Violation('unexpected-exception', f'{inc.exc[0]}: {inc.exc[1]}\n{inc.exc[2]}')
    if inc.status == 'harness':
        if inc.exc[0] in ('MemoryError', 'HarnessError', 'OSError', 'BlockingIOError', 'ImportError', 'SyntaxError'):
            raise HarnessError(inc.exc[2])
        # the same code and seed do not get here when resqpy answers as it should: what it returned has the wrong shape
        raise Violation('unexpected-result', f'{inc.exc[0]}: {inc.exc[1]}\n{inc.exc[2]}')
    if inc.status == 'died':
        raise Violation('process-died', f'signal {inc.exc[1]}')
    if inc.status == 'crash' and allow_crash:
        return None
    raise HarnessError(f'incarnation status {inc.status}')


def _plus(a, b):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + v
    return d


def _write_all(fd, b):
    mv = memoryview(b)
    while len(mv):
        n = os.write(fd, mv)
        mv = mv[n:]


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def execute(prop, plan, timeout = 120):
    """Execute one plan in a forked child with its own scratch directory. Returns a result dict."""
    root = tempfile.mkdtemp(prefix = 'vsim-', dir = scratch_base())
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
            ctx = Ctx(root, plan['seed'])
            res = {'status': 'ok'}
            random.seed(plan['seed'])
            try:
                prop.execute(plan, ctx)
            except Violation as v:
                res = {'status': 'violation', 'cls': v.cls, 'msg': v.msg}
            except HarnessError as e:
                res = {'status': 'harness', 'msg': str(e)[-3000:]}
            except BaseException as e:
                res = {'status': 'harness', 'msg': traceback.format_exc()[-3000:]}
            res.update(events = sha(*ctx.events), nevents = len(ctx.events), probes = ctx.probes, fired = ctx.fired, states = list(ctx.states),
                       sim_ns = ctx.sim_ns, steps = ctx.steps, io = ctx.iocounts, incarnations = ctx.incarnations)
            if os.environ.get('VSIM_TRACE'):
                res['trace'] = ctx.events
            b = pickle.dumps(res)
            _write_all(w, b)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    import select
    deadline = time.monotonic() + timeout
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 5))
        if rl:
            c = os.read(r, 1 << 20)
            if not c:
                break
            chunks.append(c)
    os.close(r)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors = True)
    if hung:
        return {'status': 'hang', 'cls': 'no-progress', 'msg': f'no result within {timeout} s of real time', 'events': '', 'probes': {}, 'fired': {},
                'states': [], 'sim_ns': 0, 'steps': 0, 'io': {}, 'nevents': 0, 'incarnations': 0}
    try:
        return pickle.loads(b''.join(chunks))
    except Exception:
        return {'status': 'harness', 'msg': 'run process gave no result', 'events': '', 'probes': {}, 'fired': {}, 'states': [], 'sim_ns': 0, 'steps': 0,
                'io': {}, 'nevents': 0, 'incarnations': 0}


def minimise(prop, plan, cls, budget_s = 60):
    """Greedy delta debugging over the plan's lists while the same violation class persists."""
    t_end = time.monotonic() + budget_s
    best = json.loads(json.dumps(plan))
    tries = 0

    def fails(p):
        nonlocal tries
        tries += 1
        res = execute(prop, p)
        return res['status'] in ('violation',) and res['cls'] == cls

    def get(p, path):
        for k in path:
            if isinstance(p, list) and k >= len(p):  # an enclosing list has been shortened
                return []
            p = p[k]
        return p

    changed = True
    while changed and time.monotonic() < t_end:
        changed = False
        for path in prop.shrink_lists(best):
            n = len(get(best, path))
            size = max(1, n // 2)
            while size >= 1 and time.monotonic() < t_end:
                i = 0
                while i < len(get(best, path)) and time.monotonic() < t_end:
                    cand = json.loads(json.dumps(best))
                    del get(cand, path)[i:i + size]
                    if len(get(cand, path)) < len(get(best, path)) and fails(cand):
                        best = cand
                        changed = True
                    else:
                        i += size
                size //= 2
        for cand in prop.simplify(best):
            if time.monotonic() > t_end:
                break
            if fails(cand):
                best = json.loads(json.dumps(cand))
                changed = True
    return best, tries


class Prop:
    """Base of a property check."""
    id = None
    level = 'exploration'
    quick_runs = 100
    thorough_runs = 4000
    rule = ''
    state_measure = ''
    real = []
    stub = []
    assumptions = []

    def generate(self, rng, index, tier):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def shrink_lists(self, plan):
        return [[k] for k in ('ops', 'faults') if k in plan]

    def simplify(self, plan):
        return []

    def nontrivial(self, plan, res):
        """Key of the run for distinctness, or None if trivial."""
        return res['events'] if res['steps'] > 0 or res['nevents'] > 1 else None

    def make_plan(self, base_seed, index, tier):
        seed = int(sha(self.id, base_seed, index), 16) & 0x7fffffffffff
        rng = random.Random(seed)
        plan = self.generate(rng, index, tier)
        plan['seed'] = seed
        plan['property'] = self.id
        return plan

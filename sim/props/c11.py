"""C11: work divided over worker processes gives what it would give done in turn, whatever the schedule; failures are reported and can be repeated."""
import hashlib
import os

os.environ['NUMBA_DISABLE_JIT'] = '1'  # compilation takes longer than all the runs; the python bodies are the same code

import pickle
import random
import time
import traceback

import numpy as np

from .. import core, oracle, refmodel, shim, world, zoo
from ..core import check, HarnessError
from ..saving import SaveProp, new_model
from . import c10

ALLOW = c10.LEX + ['crs', 'time_series', 'string_lookup', 'property_kind', 'boundary_feature', 'rock_fluid_unit_feature']
ARR = ['pointset', 'polyline', 'polyline_set', 'surface', 'mesh', 'property', 'regular_grid', 'trajectory', 'wellbore_frame', 'tetra_grid', 'wellbore_marker_frame', 'well_log']

STASH = {}  # what tasks run by this process made, by epc path: for judging, not seen by resqpy


class Boom(Exception):
    """Raised by a task."""


def without_faults(f):
    L = shim.lib()
    L.simio_on(0)
    try:
        return f()
    finally:
        L.simio_on(1)


def task(index, parent_tmp_dir, spec):
    """What a user gives to function_multiprocessing: makes some objects in a model of its own."""
    import resqpy.model as rq
    if spec['mode'] == 'none':
        return index, spec['good'], None, []
    d = os.path.join(parent_tmp_dir, f'w{index}.{spec["tag"]}')
    os.makedirs(d, exist_ok = True)
    epc = os.path.join(d, 'wrapper.epc')
    if spec['mode'] == 'raise':
        raise Boom(f'task {index}')
    if spec['mode'] == 'die' and not os.path.exists(f'died.{spec["tag"]}.{index}'):
        without_faults(lambda: open(f'died.{spec["tag"]}.{index}', 'w').close())
        shim.arm([dict(cls = ['write', 'open_w', 'rename'], nth = spec['at'], action = 'crash_before')])
    m = rq.new_model(epc, quiet = True)
    w = world.World(m)
    for op in spec['ops']:
        w.apply(op)
    m.store_epc(quiet = True)
    m.h5_release()
    r = random.Random(spec['q'])
    us = [str(u) for u in m.uuids() if 'ExternalPart' not in m.type_of_uuid(u)]
    r.shuffle(us)
    if spec['list'] == 'some':
        us = us[:r.randint(0, len(us))]
    out = [zoo.U(u) if spec['ids'] == 'uuid' or (spec['ids'] == 'mixed' and r.random() < 0.5) else u for u in us]
    if spec['list'] == 'none':
        out, us = None, [str(u) for u in m.uuids() if 'ExternalPart' not in m.type_of_uuid(u)]
    STASH[epc] = without_faults(lambda: dict(roots = oracle.zip_roots(epc), h5 = c10.digests(epc[:-4] + '.h5'), env = w.env, uuids = us, index = index))
    if spec['late']:
        def hide():
            os.rename(epc, epc + '.late')
            with open(f'late.{spec["tag"]}.{index}', 'w') as f:
                f.write(f'{epc}\n{spec["late"]}\n')
        without_faults(hide)
    return index, spec['good'], epc, out


def slow_disk(c, tag, expected):
    """The shared file system on which what workers have written becomes visible only after a while."""
    def sweep():
        due, left = [], 0
        for n in sorted(os.listdir('.')):
            if n.startswith(f'late.{tag}.'):
                due.append(n)
        return due
    seen = {}
    idle = 0
    while True:
        for n in without_faults(sweep):
            if n not in seen:
                epc, d = without_faults(lambda: open(n).read().split('\n')[:2])
                seen[n] = [epc, time.time() + float(d), False]
        for n, s in seen.items():
            if not s[2] and time.time() >= s[1]:
                s[2] = True
                without_faults(lambda: os.path.exists(s[0] + '.late') and os.rename(s[0] + '.late', s[0]))
                c.probe('epc-appeared-late')
        if without_faults(lambda: os.path.exists(f'over.{tag}')):
            return len(seen)
        time.sleep(0.7 if len(seen) < expected or idle < 50 else 5.0)
        idle += 1


def rival(c, fn, start, hold, mode):
    """Another user of the hdf5 file."""
    import h5py
    time.sleep(start)
    for _ in range(20):
        try:
            if os.path.exists(fn):
                f = h5py.File(fn, mode)
                t = time.time()
                time.sleep(hold)
                f.close()
                return (t, time.time())
        except OSError:
            pass
        time.sleep(0.6)
    return None


def backend(c, plan, log):
    """A joblib backend whose workers are simulated processes run by the seeded scheduler."""
    from joblib._parallel_backends import ParallelBackendBase

    class Job:

        def __init__(self, be, func, callback):
            self.be, self.func, self.callback = be, func, callback
            self.out = None

        def get(self, timeout = None):
            while self.out is None:
                self.be.wave()
            if self.out[0] == 'exc':
                raise self.out[1]
            return self.out[1]

    def worker(c2, jobs):
        for i, job in jobs:
            STASH.clear()
            try:
                v = ('ok', job.func())
            except Exception as e:  # noqa
                if core.REPO_MARK not in ''.join(traceback.format_tb(e.__traceback__)) and not isinstance(e, (Boom, OSError)):
                    raise
                v = ('exc', type(e).__name__, str(e)[:300])
            c2.ack((i, v, dict(STASH)))
        return True

    class SimBackend(ParallelBackendBase):
        supports_retrieve_callback = False

        def __init__(self, **kw):
            ParallelBackendBase.__init__(self, nesting_level = 0, **kw)
            self.jobs = []

        def effective_n_jobs(self, n_jobs):
            return plan['workers']

        def compute_batch_size(self):
            return plan['batch']

        def submit(self, func, callback = None):
            j = Job(self, func, callback)
            self.jobs.append(j)
            return j

        def wave(self):
            todo, self.jobs = self.jobs, []
            r = random.Random(plan['assign'] + len(log))
            share = [[] for _ in range(plan['workers'])]
            for i, j in enumerate(todo):
                share[r.randrange(len(share))].append((i, j))
            share = [s for s in share if s]
            faults = plan['wfaults'] if not log else []
            incs = c.concurrently([dict(fn = worker, args = (s,), faults = faults if k == 0 else []) for k, s in enumerate(share)], plan['wsched'])
            log.append(len(share))
            again = []
            for s, inc in zip(share, incs):
                if inc.status not in ('ok', 'crash', 'died'):
                    core.settle(inc)
                for i, v, st in inc.acks:
                    STASH.update(st)
                    todo[i].out = v if v[0] == 'ok' else ('exc', RuntimeError(f'in worker: {v[1]}: {v[2]}'))
                lost = [j for i, j in s if j.out is None]
                if lost:
                    c.probe('worker-died')
                    if plan['retry_dead']:
                        again += lost
                    else:
                        for j in lost:
                            j.out = ('exc', RuntimeError('a worker process has been terminated'))
            self.jobs = again
            for j in todo:
                if j.out is not None and j.callback is not None:
                    j.callback(j)

    return SimBackend


def call(c, plan, b, tag):
    """One call of function_multiprocessing; returns its outcome."""
    import joblib
    import resqpy.multi_processing as rqmp
    STASH.clear()
    log = []
    joblib.register_parallel_backend('sim', backend(c, plan, log))
    kw = [dict(spec = dict(t, tag = tag)) for t in b['tasks']]
    t0 = time.time()
    try:
        res = rqmp.function_multiprocessing(task, kw, b['target'], None if plan['serial'] else 'a cluster', consolidate = b['consolidate'], require_success = b['require'],
                                            tmp_dir_path = plan['tmp'], backend = 'sim', clean_up = b['clean_up'])
        out = ('ok', list(res))
    except core.Violation:
        raise
    except Exception as e:  # noqa
        out = ('exc', type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
    finally:
        without_faults(lambda: open(f'over.{tag}', 'w').close())
    return dict(out = out, stash = dict(STASH), t0 = t0, t1 = time.time(), hit = sum(shim.fired().values()))


def main_process(c, plan, b, tag, faults):
    """A user's process: one call, with disk errors perhaps, and if it fails another one without."""
    if faults:
        shim.arm(faults)
    first = call(c, plan, b, tag)
    shim.disarm()
    c.event(tag, first['out'][:2], len(first['stash']))
    return first


def canon_pair(a, b, path = ''):
    """Pairs of uuids at corresponding references of two objects, or a text saying where they differ otherwise."""
    ka = [x for x in a if isinstance(x.tag, str)]
    kb = [x for x in b if isinstance(x.tag, str)]
    here = path + '/' + oracle.local(a.tag)
    if a.tag != b.tag or sorted(oracle._attr(k, v) for k, v in a.attrib.items()) != sorted(oracle._attr(k, v) for k, v in b.attrib.items()):
        return f'{here} / {oracle.local(b.tag)}: attributes'
    if len(ka) != len(kb):
        return f'{here}: {[oracle.local(x.tag) for x in ka]} / {[oracle.local(x.tag) for x in kb]}'
    if not ka and (a.text or '').strip() != (b.text or '').strip():
        return f'{here}: {a.text!r} / {b.text!r}'
    is_ref = any(oracle.local(x.tag) == 'ContentType' for x in ka)
    ext = is_ref and any('EpcExternalPart' in (x.text or '') for x in ka if oracle.local(x.tag) == 'ContentType')
    pairs = []
    for x, y in zip(ka, kb):
        t = oracle.local(x.tag)
        if is_ref and t in ('UUID', 'Uuid'):
            if not ext:
                pairs.append(((x.text or '').strip().lower(), (y.text or '').strip().lower()))
            continue
        if is_ref and t in ('Title', 'VersionString', 'UuidAuthority'):
            continue
        p = canon_pair(x, y, here)
        if isinstance(p, str):
            return p
        pairs += p
    return pairs


def verify(c, b, stash, old, success):
    """In a fresh process: everything the tasks made is in the recombined epc, and what was there before still is."""
    import resqpy.model as rq
    target = b['target']
    roots = oracle.zip_roots(target)
    f = oracle.structure_fault(roots)
    check(f is None, 'package-structure', f)
    ref = refmodel.Ref(roots)
    f = ref.relationship_fault()
    check(f is None, 'relationships', f)
    h5 = c10.digests(target[:-4] + '.h5')
    for u, dg in old['parts'].items():
        check(u in ref.by_uuid and oracle.digest(ref.by_uuid[u].root) == dg, 'existing-changed', lambda: f'part {u} of the existing epc was lost or changed by the recombination')
    for p, dg in old['h5'].items():
        check(h5.get(p) == dg, 'existing-changed', f'array {p} of the existing hdf5 file was changed by the recombination')
    envs = [s['env'] for s in stash] + [old['env']]
    everyone = {u: (k, e, env) for env in envs for k, u, e in env.objs}
    srcs = [(s, refmodel.Ref(s['roots'])) for s in stash]
    wanted = set(old['parts'])

    def judge(x, y, n):
        """y stands for x in the recombined model."""
        check(y in ref.by_uuid, 'incomplete', lambda: f'a part made by task {n} refers to {x}, in the recombined epc to {y} which is not in it')
        if x == y:
            return
        check(b['consolidate'], 'consolidated', f'{x} of task {n} was replaced by {y} though not consolidating')
        check(x not in ref.by_uuid, 'consolidated', f'{x} of task {n} is in the recombined epc but references to it lead to {y}')
        p, q = everyone.get(x), everyone.get(y)
        if p and q and p[1] is not None and q[1] is not None:
            check(c10.alike(p[0], p[1], p[2], q[0], q[1], q[2], False), 'consolidated', lambda: f'{zoo.short(p[:2])} of task {n} was taken to be the same as {zoo.short(q[:2])}')
            c.probe('consolidations-judged')

    m = rq.Model(target)
    for s, sref in srcs:
        n = s['index']
        need = c10.closure(sref, s['uuids'])
        stands = {}
        for u in need:
            if u in ref.by_uuid:
                wanted.add(u)
                sp, tp = sref.by_uuid[u], ref.by_uuid[u]
                if u in old['parts']:
                    continue
                pairs = canon_pair(sp.root, tp.root)
                check(not isinstance(pairs, str), 'differs', lambda: f'{sp.type} {u} made by task {n} differs in the recombined epc: {pairs}')
                mp = {}
                for x, y in pairs:
                    judge(x, y, n)
                    mp[x] = y
                stands[u] = mp
                for x in c10.h5_paths(sp.root):
                    check(h5.get(x) == s['h5'].get(x), 'arrays', lambda: f'array {x} of {sp.type} made by task {n}: {s["h5"].get(x)} became {h5.get(x)}')
                c.probe('parts-recombined')
        for u in need:
            if u not in ref.by_uuid:
                check(b['consolidate'], 'incomplete', lambda: f'{sref.by_uuid[u].type} {u} made by task {n} is not in the recombined epc')
                p = everyone.get(u)
                same_type = [q for q in ref.objects() if q.type == sref.by_uuid[u].type]
                check(same_type, 'incomplete', lambda: f'{sref.by_uuid[u].type} {u} made by task {n} is not in the recombined epc, nor anything of its type')
                check(sref.by_uuid[u].type in c10.FC['consolidatable'], 'incomplete', lambda: f'{sref.by_uuid[u].type} {u} made by task {n} is not in the recombined epc')
                if p and p[1] is not None:
                    cand = [everyone.get(q.uuid) for q in same_type]
                    check(any(q is None or q[1] is None or c10.alike(p[0], p[1], p[2], q[0], q[1], q[2], False) for q in cand), 'incomplete', lambda: f'{zoo.short(p[:2])} made by task {n} is not in the recombined epc, nor its like')
                c.probe('parts-consolidated')
        for k, u, e in s['env'].objs:
            if u in stands and e is not None and all(v in need or v not in sref.by_uuid for v, us in s['env'].aux.items() if u in us):
                d = zoo.diff({x: c10.mapped(v, stands[u]) for x, v in e.items()}, zoo.READ[k](m, zoo.U(u), e))
                check(d is None, 'reads-differently', lambda: f'{k} {u} made by task {n}: {d}')
                c.probe('objects-read')
    for k, u, e in old['env'].objs:
        if e is not None and u in old['parts']:
            d = zoo.diff(e, zoo.READ[k](m, zoo.U(u), e))
            check(d is None, 'existing-changed', lambda: f'{k} {u} which was in the epc: {d}')
    m.h5_release()
    return sorted(ref.by_uuid)


def snapshot(c, name, env):
    if not os.path.exists(name):
        return dict(parts = {}, h5 = {}, env = env)
    ref = refmodel.of_file(name)
    return dict(parts = {p.uuid: oracle.digest(p.root) for p in ref.objects()}, h5 = c10.digests(name[:-4] + '.h5'), env = env)


def longest_wait(b):
    """For how long the caller has to wait for one of the epcs, having had those before."""
    t, worst = 0, 0
    for x in b['tasks']:
        if x['mode'] != 'none':
            worst = max(worst, x['late'] - t)
            t = max(t, x['late'])
    return worst


def gen_tasks(rng, tier):
    tasks = []
    small = rng.random() < 0.5
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
    many = rng.random() < 0.06
    if many:
        n = rng.randint(11, 14)
    for _ in range(n):
        ops = []
        for _ in range(1 if many else rng.randint(1, 3 if tier == 'quick' else 6)):
            if rng.random() < 0.55:
                ops.append(['add', rng.choice(ALLOW if not small else ALLOW[-6:]), [rng.randrange(2), rng.choice([-1, -1, rng.randrange(12)])]])
            else:
                ops.append(['add', rng.choice(ARR), rng.randrange(1 << 30)])
        mode = rng.choice(['ok'] * 9 + ['none'])
        tasks.append(dict(ops = ops, mode = mode, good = rng.random() < 0.85, q = rng.randrange(1 << 30), list = rng.choice(['all', 'all', 'all', 'some', 'none']),
                          ids = rng.choice(['uuid', 'str', 'mixed']), late = 0, at = int(rng.random()**2 * 40)))
    return tasks


class P(SaveProp):
    id = 'C11'
    quick_runs = 500
    thorough_runs = 4000
    rule = ('one evaluation is one seeded set of tasks distributed by function_multiprocessing over simulated workers (or a batch function of resqpy given such workers), interleaved at system calls with each other and with rival users of the files, '
            'with its recombined epc verified in a fresh process; distinct by hash of the event log')
    state_measure = 'distinct (number of tasks, workers, waves, outcome, kinds of trouble) combinations'
    assumptions = ['workers are processes forked from the calling one with no hdf5 file open', 'errors are not injected into writes to hdf5 files, nor crashes while one is open for writing',
                   'the backend returns results of tasks as joblib does: in order of submission, raising the exception of the first failed one']
    real = SaveProp.real + ['joblib Parallel', 'resqpy.multi_processing and its wrappers', 'flock between processes']
    stub = SaveProp.stub + ['joblib backend (dask cluster)', 'process scheduling']

    def generate(self, rng, index, tier):
        if rng.random() < 0.25:
            return self.gen_batch(rng)
        tasks = gen_tasks(rng, tier)
        trouble = rng.choice(['none', 'none', 'none', 'raise', 'die', 'late', 'late', 'lock', 'lock', 'main', 'main', 'worker', 'crash', 'crash', 'two'])
        plan = dict(kind = 'tasks', trouble = trouble, workers = rng.randint(1, 4), batch = rng.choice([1, 1, 2]), assign = rng.randrange(1 << 30), serial = rng.random() < 0.12, retry_dead = rng.random() < 0.6,
                    tmp = rng.choice(['.', '.', 'scratch', None]), wsched = [[int(rng.random()**2 * 60), rng.randrange(8)] for _ in range(rng.choice([0, 10, 60, 200]))],
                    sched = [[int(rng.random()**2 * 200), rng.randrange(8)] for _ in range(rng.choice([0, 20, 60]))], wfaults = [], faults = [], rivals = [],
                    pre = None if rng.random() < 0.45 else c10.gen_ops(rng, 1, 4, True), again = rng.random() < 0.25)
        b = dict(tasks = tasks, target = 'rec.epc', consolidate = rng.random() < 0.7, require = rng.random() < 0.3, clean_up = rng.random() < 0.7)
        plan['b'] = b
        if trouble == 'raise':
            rng.choice(tasks)['mode'] = 'raise'
        elif trouble == 'die':
            rng.choice(tasks)['mode'] = 'die'
            plan['serial'] = False
            plan['workers'] = max(plan['workers'], 2)  # joblib does not use a worker process if there would be only one
        elif trouble == 'late':
            for t in tasks:
                if rng.random() < 0.6:
                    t['late'] = rng.choice([0.5, 3, 20, 60, 400, 2500, 2500, 3600, 5000])
        elif trouble == 'lock':
            plan['rivals'] = [dict(start = round(rng.random() * rng.choice([0.2, 3, 8]), 2), hold = rng.choice([0.3, 1.5, 2.5, 3.5, 30, 30]), mode = rng.choice(['r', 'a'])) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.6:  # held by a process elsewhere, for good or for some attempts to open it
                plan['rivals'] = []
                plan['trouble'] = 'main'
                plan['serial'] = False
                plan['faults'] = [dict(cls = ['flock'], nth = int(rng.random()**2 * 30), action = 'err', arg = 'EAGAIN', repeat = rng.choice([-1, -1, 1, 3, 4, 5, 6, 12]), suffix = '.h5')]
                rng.choice(tasks)['ops'] += [['add', 'pointset', rng.randrange(1 << 30)] for _ in range(2)]
        elif trouble == 'main':
            plan['faults'] = [dict(cls = rng.choice([['open_r'], ['read'], ['flock'], ['open_r', 'read', 'flock'], ['open_w', 'write', 'rename']]), nth = int(rng.random()**2 * rng.choice([8, 60, 250])), action = 'err',
                                   arg = rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOENT']), repeat = rng.choice([1, 2, -1]), suffix = '')]
            cl = plan['faults'][0]['cls']
            if 'write' in cl:
                plan['faults'][0]['suffix'] = '.epc'
            if cl == ['flock']:
                plan['faults'][0]['arg'] = 'EAGAIN'
            plan['serial'] = False
        elif trouble == 'worker':
            plan['wfaults'] = [dict(cls = rng.choice([['open_w', 'write', 'rename', 'mkdir'], ['open_r', 'read', 'flock'], ['write']]), nth = int(rng.random()**2 * rng.choice([10, 80])), action = 'err',
                                    arg = rng.choice(['EIO', 'ENOSPC', 'EACCES']), repeat = rng.choice([1, -1]))]
            plan['serial'] = False
        elif trouble == 'crash':
            plan['faults'] = [dict(cls = rng.choice([['open_r', 'read', 'close'], ['rename', 'unlink', 'write', 'open_w', 'close', 'fsync']]), nth = int(rng.random()**2 * rng.choice([4, 30])), action = rng.choice(['crash_before', 'crash_after']),
                                   suffix = '.epc')]
            if plan['faults'][0]['cls'][0] == 'rename':
                plan['faults'][0]['suffix'] = '!.h5'
            plan['serial'] = False
        elif trouble == 'two':
            plan['second'] = dict(tasks = gen_tasks(rng, tier)[:3], target = 'other.epc', consolidate = rng.random() < 0.7, require = False, clean_up = rng.random() < 0.7)
        return plan

    def gen_batch(self, rng):
        return dict(kind = 'batch', which = rng.choice(['mesh', 'well', 'faces', 'faces']), n = rng.randint(1, 5) if rng.random() < 0.95 else rng.randint(11, 13), n_workers = rng.randint(1, 4), workers = rng.randint(1, 4), batch = 1, assign = rng.randrange(1 << 30),
                    wsched = [[int(rng.random()**2 * 60), rng.randrange(8)] for _ in range(rng.choice([0, 40, 200]))], q = rng.randrange(1 << 30), into = rng.choice(['new', 'new', 'source', 'other']), retry_dead = False,
                    wfaults = [], tmp = '.')

    def shrink_lists(self, plan):
        if plan['kind'] == 'batch':
            return [['wsched']]
        return [['b', 'tasks'], ['wsched'], ['sched'], ['rivals'], ['faults'], ['wfaults']] + ([['pre']] if plan['pre'] else []) + [['b', 'tasks', i, 'ops'] for i in range(len(plan['b']['tasks']))]

    def execute(self, plan, ctx):
        if plan['kind'] == 'batch':
            return self.batch(plan, ctx)
        if plan['tmp'] == 'scratch':
            os.makedirs(ctx.path('scratch'))
        env = zoo.Env()
        b = plan['b']
        if plan['pre'] is not None:
            env = ctx.run_ok(c10.build, 'rec', plan['pre'])
        old = ctx.run_ok(snapshot, 'rec.epc', env)
        tr = plan['trouble']
        specs = [dict(fn = main_process, args = (plan, b, 'A', plan['faults']))]
        if any(t['late'] for t in b['tasks']):
            specs.append(dict(fn = slow_disk, args = ('A', sum(1 for t in b['tasks'] if t['late']))))
        for r in plan['rivals']:
            specs.append(dict(fn = rival, args = ('rec.h5', r['start'], r['hold'], r['mode'])))
        if tr == 'two':
            specs.append(dict(fn = main_process, args = (plan, plan['second'], 'B', [])))
        before_files = set(os.listdir(ctx.dir))
        if len(specs) > 1 and tr != 'crash':
            incs = ctx.concurrently(specs, plan['sched'])
        else:
            incs = [ctx.process(specs[0]['fn'], *specs[0]['args'])]
        inc = incs[0]
        if inc.status == 'died' and tr in ('main', 'worker'):
            ctx.probe('hdf5-library-died')
            return
        holds = [core.settle(x) for x, s in zip(incs, specs) if s['fn'] is rival]
        first = core.settle(inc, allow_crash = tr == 'crash')
        if first is None:
            ctx.probe('caller-crashed')
            ok = self.judge_epc(ctx, plan, old, None)
        else:
            ok = self.judge_call(ctx, plan, b, first, old, holds, 'rec', 'A')
        ctx.state(f'{len(b["tasks"])}.{plan["workers"]}.{tr}.{ok}.{plan["serial"]}.{len(holds)}')
        if tr == 'two':
            second = core.settle(incs[-1])
            self.judge_call(ctx, plan, plan['second'], second, dict(parts = {}, h5 = {}, env = zoo.Env()), [], 'other', 'B')
        if ok and not plan['again']:
            return
        # again, with nothing the matter, by another process or on top of what is there
        now = ctx.run_ok(snapshot, 'rec.epc', zoo.Env()) if ok else old
        calm = dict(plan, wfaults = [], faults = [], trouble = 'none', serial = plan['serial'])
        tasks2 = [dict(t, mode = 'ok' if t['mode'] != 'none' else 'none', good = True, late = 0) for t in b['tasks']]
        b2 = dict(b, tasks = tasks2)
        inc2 = ctx.process(main_process, calm, b2, 'C', [])
        r2 = core.settle(inc2)
        if ok:
            now['env'] = zoo.Env()
            for s in first['stash'].values():
                now['env'].objs += s['env'].objs
                now['env'].aux.update(s['env'].aux)
            now['env'].objs = [o for o in now['env'].objs if o[1] in now['parts'] and False] + [o for o in env.objs]
        else:
            # arrays which the failed attempt had copied may be there, unused
            check(r2['out'][0] == 'ok', 'not-repeatable', lambda: f'after a call which failed ({first["out"][1:3] if first else "crash"}) the same call fails though nothing is wrong now: {r2["out"]}')
            ctx.probe('failed-call-repeated')
        self.judge_call(ctx, calm, b2, r2, now, [], 'rec', 'C')

    def judge_epc(self, ctx, plan, old, first):
        """After a call which did not return: the epc is as it was (or, if the caller was killed, complete)."""
        p = ctx.path('rec.epc')
        if not os.path.exists(p):
            check(plan['pre'] is None, 'existing-lost', 'the existing recombined epc has vanished')
            return False
        try:
            roots = oracle.zip_roots(p)
        except Exception as e:  # noqa
            raise core.Violation('existing-lost', f'the recombined epc is not readable: {type(e).__name__} {e}')
        ref = refmodel.Ref(roots)
        parts = {q.uuid: oracle.digest(q.root) for q in ref.objects()}
        if parts == old['parts'] and plan['pre'] is not None:
            return False
        check(first is None, 'partial', 'the call raised an exception but the recombined epc has changed')
        # the caller was killed after storing: it must be a complete model
        f = oracle.structure_fault(roots) or ref.relationship_fault()
        check(f is None, 'partial', f)
        for u, dg in old['parts'].items():
            check(parts.get(u) == dg, 'existing-changed', f'part {u} of the existing epc was lost or changed by the recombination')
        old['parts'] = parts
        old['h5'] = core.settle(ctx.process(lambda c: c10.digests('rec.h5')))
        old['env'] = zoo.Env()
        return False

    def judge_call(self, ctx, plan, b, rep, old, holds, name, tag):
        tr = plan['trouble']
        out = rep['out']
        goods = [t['good'] for t in b['tasks']]
        why = None
        if any(t['mode'] == 'raise' for t in b['tasks']):
            why = 'a task raises'
        elif any(t['mode'] == 'die' for t in b['tasks']) and not plan['retry_dead']:
            why = 'a worker dies'
        elif b['require'] and not all(goods):
            why = 'success is required'
        elif longest_wait(b) > 3050:
            why = 'an epc is too late'
        may = tr in ('main', 'worker') and (rep['hit'] or plan['wfaults'])
        if sum((h[1] - h[0]) for h in holds if h) >= 3.0:
            may = True
        if longest_wait(b) > 2850:
            may = True
        if tr == 'die':
            may = may or why is not None
            why = None if not plan['retry_dead'] else why
        if out[0] == 'ok':
            check(why is None, 'failure-hidden', f'the call returned {out[1]} although {why}')
            check(out[1] == goods, 'success-list', f'success list is {out[1]}, tasks reported {goods}')
            stash = list(rep['stash'].values())
            n = sum(1 for t in b['tasks'] if t['mode'] != 'none')
            if len(stash) != n:
                raise HarnessError(f'{len(stash)} results known of {n}')
            core.settle(ctx.process(verify, b, stash, old, out[1]))
            where = ctx.dir if plan['tmp'] != 'scratch' else ctx.path('scratch')
            left = sorted(x for x in os.listdir(where) if x.startswith('tmp_'))
            if tr == 'none':
                pass
            mine = {os.path.normpath(e).split(os.sep)[-3] for e in rep['stash']}
            if b['clean_up']:
                check(not (mine & set(left)), 'not-cleaned', f'temporary directory {mine} left behind')
            else:
                check(mine <= set(left), 'cleaned', f'temporary directory {mine} has gone although clean up was not asked for')
            ctx.probe('calls-verified')
            return True
        check(why is not None or may, 'call-failed', lambda: f'the call failed though nothing was wrong: {out[1:]}')
        ctx.probe('call-raised')
        p2 = dict(plan, pre = plan['pre'] if name == 'rec' else None)
        if tag == 'C':
            return False
        self.judge_epc(ctx, p2, old, rep)
        return False

    # --- batch functions of resqpy

    def batch(self, plan, ctx):
        info = ctx.run_ok(batch_source, plan)
        h = {n: hashlib.sha256(open(ctx.path(n), 'rb').read()).hexdigest() for n in ('src.epc', 'src.h5')}
        a = core.settle(ctx.process(batch_call, plan, info, 'ser.epc', True))
        target = {'new': 'par.epc', 'source': 'src.epc', 'other': 'par.epc'}[plan['into']]
        if plan['into'] == 'other':
            ctx.run_ok(c10.build, 'par', [['add', 'crs', 5], ['add', 'pointset', 6]])
        old = ctx.run_ok(snapshot, target, zoo.Env())
        b = core.settle(ctx.process(batch_call, plan, info, target, False))
        check(a == b, 'success-list', f'{plan["which"]} batch gave {b} with workers, {a} without')
        ctx.event('batch', plan['which'], a)
        ctx.state(f'{plan["which"]}.{plan["n"]}.{plan["n_workers"]}.{plan["workers"]}.{plan["into"]}')
        if plan['into'] != 'source':
            for n, x in h.items():
                check(hashlib.sha256(open(ctx.path(n), 'rb').read()).hexdigest() == x, 'source-changed', f'{n} was changed')
        if a == 'refused':
            ctx.probe('batch-refused')
            now = ctx.run_ok(snapshot, target, zoo.Env())
            check(now['parts'] == old['parts'], 'existing-changed', 'the epc was changed though a task was refused')
            return
        ctx.run_ok(batch_verify, plan, info, target, old, a)


def batch_source(c, plan):
    import resqpy.grid as grr
    import resqpy.property as rqp
    import resqpy.well as rqw
    from resqpy.crs import Crs
    r = random.Random(plan['q'])
    m = new_model('src.epc')
    if plan['which'] == 'faces':
        return faces_source(m, plan, r)
    crs = Crs(m, x_offset = r.choice([0.0, 1000.0]), z_inc_down = True)
    crs.create_xml()
    nk, nj, ni = r.randint(1, 3), r.randint(2, 4), r.randint(2, 5)
    g = grr.RegularGrid(m, crs_uuid = crs.uuid, extent_kji = (nk, nj, ni), dxyz = (100.0, 120.0, 10.0), origin = (0.0, 0.0, 1000.0), title = 'batch grid', as_irregular_grid = plan['which'] == 'well')
    if plan['which'] == 'well':
        g.write_hdf5()
    g.create_xml()
    out = []
    for i in range(plan['n']):
        if plan['which'] == 'mesh':
            p = rqp.Property.from_array(m, zoo.farr(r, (nj, ni)), 'batch', f'col prop {i}', g.uuid, property_kind = 'depth', uom = 'm', indexable_element = 'columns')
        else:
            x, y = r.uniform(10, 100 * ni - 10), r.uniform(10, 120 * nj - 10)
            dm = rqw.MdDatum(m, crs_uuid = crs.uuid, location = (x, y, 900.0), md_reference = 'kelly bushing')
            dm.create_xml()
            inside = r.random() < 0.85
            cp = np.array([(x, y, 900.0), (x + 7.0, y + 3.0, 950.0), (x + 9.0, y + 3.0, 990.0 if not inside else 1000.0 + 10.0 * nk + 20.0)])
            md = np.array([0.0, 51.0, 51.0 + cp[2, 2] - 950.0])
            p = rqw.Trajectory(m, md_datum = dm, data_frame = __import__('pandas').DataFrame({'MD': md, 'X': cp[:, 0], 'Y': cp[:, 1], 'Z': cp[:, 2]}), length_uom = 'm', well_name = f'well {i}')
            p.write_hdf5()
            p.create_xml()
        out.append(str(p.uuid))
    m.store_epc()
    m.h5_release()
    return dict(grid = str(g.uuid), uuids = out, crs = str(crs.uuid))


def faces_source(m, plan, r):
    """Surfaces and point sets to be represented by faces of a grid."""
    import resqpy.grid as grr
    import resqpy.property as rqp
    import resqpy.surface as rqs
    from resqpy.crs import Crs
    crs = Crs(m, z_inc_down = r.random() < 0.8, z_offset = r.choice([0.0, 1000.0]))
    crs.create_xml()
    nk, nj, ni = r.randint(2, 4), r.randint(2, 5), r.randint(2, 5)
    dx, dy, dz = 10.0, 12.0, 5.0
    g = grr.RegularGrid(m, crs_uuid = crs.uuid, extent_kji = (nk, nj, ni), dxyz = (dx, dy, dz), origin = (0.0, 0.0, 0.0), title = 'faces grid', set_points_cached = True)
    if r.random() < 0.5:
        g.create_xml(add_cell_length_properties = True)
    else:
        g.create_xml()
    lx, ly, lz = dx * ni, dy * nj, dz * nk
    specs = []
    for i in range(plan['n']):
        z = r.uniform(0.1, 0.9) * lz if r.random() < 0.85 else -50.0 - 9.0 * lz
        t = [r.uniform(-0.2, 0.2) * lz for _ in range(5)]
        p = np.array([(-1.0, -2.0, z + t[0]), (lx + 3.0, -1.0, z + t[1]), (-2.0, ly + 1.0, z + t[2]), (lx + 1.0, ly + 2.0, z + t[3]), (r.uniform(0.3, 0.7) * lx, r.uniform(0.3, 0.7) * ly, z + t[4])])
        if r.random() < 0.25:  # a dipping plane, nearer to vertical
            x = r.uniform(0.3, 0.6) * lx
            p = np.array([(x, -3.0, -1.0), (x + 0.4, ly + 3.0, -1.0), (x + 4.0, -3.0, lz + 1.0), (x + 5.0, ly + 3.0, lz + 1.1), (x + 2.1, 0.5 * ly, 0.5 * lz)])
        ps = rqs.PointSet(m, points_array = p, crs_uuid = crs.uuid, title = f'points {i}')
        as_points = r.random() < 0.2
        if as_points:
            ps.write_hdf5()
            ps.create_xml()
            o = ps
        else:
            o = rqs.Surface(m, crs_uuid = crs.uuid, title = f'surface {i}')
            o.set_from_point_set(ps)
            o.write_hdf5()
            o.create_xml()
        props = [x for x in ('triangle', 'depth', 'offset', 'grid bisector', 'grid shadow', 'flange bool') if r.random() < 0.5]
        extend = r.random() < 0.3 or as_points
        if 'flange bool' in props and not extend:
            props.remove('flange bool')
        specs.append(dict(surface_uuid = str(o.uuid), name = f'fault {i}', title = f'gcs {i}', return_properties = props or None, extend_fault_representation = extend, use_pack = r.random() < 0.3,
                          feature_type = r.choice(['fault', 'horizon', 'geobody boundary']), use_index_as_realisation = r.random() < 0.5, trimmed = True, retriangulate = r.random() < 0.15,
                          extra_metadata = dict(number = str(i)), agitate = r.random() < 0.3, related_uuid = None if r.random() < 0.7 else str(crs.uuid)))
    m.store_epc()
    m.h5_release()
    return dict(grid = str(g.uuid), uuids = [x['surface_uuid'] for x in specs], crs = str(crs.uuid), specs = specs, all = [str(u) for u in m.uuids()])


def faces_content(m, given):
    """What the face finding tasks have made, by title."""
    import resqpy.fault as rqf
    import resqpy.property as rqp
    import resqpy.surface as rqs
    d = {}
    for u in m.uuids(obj_type = 'GridConnectionSetRepresentation'):
        o = rqf.GridConnectionSet(m, uuid = u)
        o.cache_arrays()
        rel = sorted(m.type_of_uuid(x, strip_obj = True) for x in m.uuids(related_uuid = u) if 'Property' not in m.type_of_uuid(x) and 'ExternalPart' not in m.type_of_uuid(x))
        k = ('gcs', o.title)
        check(k not in d, 'batch-differs', f'two grid connection sets {o.title}')
        d[k] = (o.count, np.array(o.cell_index_pairs), np.array(o.face_index_pairs), np.array(o.feature_indices), [x[3] if len(x) > 3 else x[1] for x in o.feature_list] and len(o.feature_list), dict(o.extra_metadata), rel,
                [str(g.uuid) for g in o.grid_list])
    for u in m.uuids(obj_type = ['ContinuousProperty', 'DiscreteProperty', 'CategoricalProperty', 'PointsProperty']):
        if str(u) in given:
            continue
        p = rqp.Property(m, uuid = u)
        sup = p.collection.support_uuid
        k = ('property', p.title, m.title(uuid = sup), m.type_of_uuid(sup, strip_obj = True), p.realization())
        d.setdefault(k, []).append((p.indexable_element(), p.is_continuous(), p.property_kind(), np.array(p.array_ref())))
    for u in m.uuids(obj_type = 'TriangulatedSetRepresentation'):
        if str(u) in given:
            continue
        s = rqs.Surface(m, uuid = u)
        t, p = s.triangles_and_points()
        d.setdefault(('surface', s.title), []).append((np.array(t), np.array(p)))
    for k, v in d.items():
        if isinstance(v, list):
            v.sort(key = repr)
    return d


def batch_call(c, plan, info, target, serial):
    import joblib
    from resqpy.multi_processing.wrappers import blocked_well_mp, mesh_mp
    import resqpy.multi_processing as rqmp
    import functools
    joblib.register_parallel_backend('sim', backend(c, plan, []))
    real = rqmp.function_multiprocessing

    def through(*a, **k):  # the batch functions have no backend argument: a user of another backend than dask makes it the default one
        return real(*a, **dict(k, backend = 'sim'))

    rqmp.function_multiprocessing = through
    cl = None if serial else 'a cluster'
    if plan['which'] == 'faces':
        from resqpy.multi_processing.wrappers import grid_surface_mp
        kw = [dict(s, grid_epc = 'src.epc', grid_uuid = zoo.U(info['grid']), surface_epc = 'src.epc') for s in info['specs']]
        try:
            return list(real(grid_surface_mp.find_faces_to_represent_surface_regular_wrapper, kw, target, cl, consolidate = True, tmp_dir_path = plan['tmp'], backend = 'sim'))
        except Exception as e:  # noqa
            if 'leaky' in str(e):  # a surface which has no two sides is refused
                return 'refused'
            raise
    if plan['which'] == 'mesh':
        return mesh_mp.mesh_from_regular_grid_column_property_batch('src.epc', zoo.U(info['grid']), [zoo.U(u) for u in info['uuids']], target, cl, plan['n_workers'])
    return blocked_well_mp.blocked_well_from_trajectory_batch('src.epc', zoo.U(info['grid']), 'src.epc', [zoo.U(u) for u in info['uuids']], target, cl, plan['n_workers'])


def batch_content(c, plan, info, name):
    import resqpy.model as rq
    import resqpy.surface as rqs
    import resqpy.well as rqw
    m = rq.Model(name)
    d = {}
    if plan['which'] == 'faces':
        d = faces_content(m, set(info['all']))
    elif plan['which'] == 'mesh':
        for u in m.uuids(obj_type = 'Grid2dRepresentation'):
            o = rqs.Mesh(m, uuid = u)
            # (related to the property it was made from only where that is in the model)
            if 'src' in name:
                rel = [str(x) for x in m.uuids(related_uuid = u) if str(x) in info['uuids']]
                check(len(rel) == 1 and m.title_for_part(m.part_for_uuid(rel[0])) in o.title, 'batch-relationship', lambda: f'mesh {o.title} is related to {rel}')
            d.setdefault(o.title, []).append(np.array(o.full_array_ref()))
    else:
        for u in m.uuids(obj_type = 'BlockedWellboreRepresentation'):
            o = rqw.BlockedWell(m, uuid = u)
            d.setdefault((o.title, str(o.trajectory.uuid)), []).append((o.cell_count, o.node_count, np.array(o.node_mds), np.array(o.cell_indices), np.array(o.grid_indices), np.array(o.face_pair_indices), [str(g.uuid) for g in o.grid_list]))
    m.h5_release()
    return d


def batch_verify(c, plan, info, target, old, ok):
    ref = refmodel.of_file(target)
    f = oracle.structure_fault(oracle.zip_roots(target)) or ref.relationship_fault()
    check(f is None, 'package-structure', f)
    h5 = c10.digests(target[:-4] + '.h5')
    for u, dg in old['parts'].items():
        check(u in ref.by_uuid, 'existing-changed', f'part {u} of the existing epc was lost')
        check(oracle.digest(ref.by_uuid[u].root) == dg, 'existing-changed', f'part {u} of the existing epc was changed')
    for p, dg in old['h5'].items():
        check(h5.get(p) == dg, 'existing-changed', f'array {p} of the existing hdf5 file was changed')
    a = batch_content(c, plan, info, 'ser.epc')
    b = batch_content(c, plan, info, target)
    check(a.keys() == b.keys(), 'batch-differs', lambda: f'{plan["which"]} batch made {sorted(b)} with workers, {sorted(a)} without')
    for k in a:
        check(zoo.same(a[k], b[k]), 'batch-differs', lambda: f'{plan["which"]} {k} made with workers differs from that made without: {zoo.short(a[k])} {zoo.short(b[k])}')
        c.probe('batch-objects-compared')
    if plan['which'] == 'faces':
        n = sum(1 for k in b if k[0] == 'gcs')
        check(n == sum(1 for x in ok if x), 'batch-incomplete', f'{n} grid connection sets for success list {ok}')
    if plan['which'] == 'mesh':
        check(len(b) == len(set(info['uuids'])), 'batch-incomplete', f'{len(b)} meshes for {len(info["uuids"])} properties')


PROP = P()

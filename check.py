#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  check.py ID                    run the check of property ID (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py ID --tier thorough    deeper exploration
  check.py ID --replay FILE      replay one recorded schedule and fault trace
  check.py ID --runs N           override the number of simulated runs
exit 0: held on everything explored; exit 1 + 'VIOLATION property=ID replay=PATH': broken; exit 2: harness error
"""
import argparse
import json
import os
import selectors
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and sys.prefix != '/opt/venv':
    os.execv(PY, [PY] + sys.argv)
PY = sys.executable
sys.dont_write_bytecode = True
from sim import shim  # noqa
from sim.worker import load  # noqa

REPO = os.environ.get('VSIM_REPO', '/repo')


def env_for(hashseed = '0'):
    e = dict(os.environ)
    e.update(LD_PRELOAD = shim.build(), PYTHONHASHSEED = hashseed, PYTHONDONTWRITEBYTECODE = '1', TZ = 'UTC', OMP_NUM_THREADS = '1', OPENBLAS_NUM_THREADS = '1',
             MKL_NUM_THREADS = '1', NUMBA_NUM_THREADS = '1', HDF5_USE_FILE_LOCKING = 'TRUE', PYTHONPATH = REPO + os.pathsep + HERE, LC_ALL = 'C.UTF-8')
    e.pop('VERIF_SCRATCH', None)
    cache = os.path.join(HERE, 'build', 'numba')
    os.makedirs(cache, exist_ok = True)
    e['NUMBA_CACHE_DIR'] = cache
    return e


def replay(pid, path, hashseed = '0'):
    p = subprocess.run([PY, '-m', 'sim.worker', pid, 'replay', path], cwd = HERE, env = env_for(hashseed), stdout = subprocess.PIPE, stderr = subprocess.PIPE,
                       text = True, timeout = 600)
    for line in p.stdout.splitlines():
        m = json.loads(line)
        if m['kind'] == 'replay':
            return m['res']
    raise RuntimeError('replay gave no result: ' + p.stderr[-2000:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default = os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type = int, default = int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type = int)
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type = int, default = int(os.environ.get('VSIM_JOBS', os.cpu_count() or 4)))
    ap.add_argument('--hashseed', default = '0')
    ap.add_argument('--dump', help = 'write per-run event hashes (determinism testing)')
    a = ap.parse_args()
    t0 = time.monotonic()
    pid = a.id.upper()

    if a.replay:
        res = replay(pid, os.path.abspath(a.replay), a.hashseed)
        print(json.dumps(res, indent = 1))
        if res['status'] == 'violation':
            print(f'VIOLATION property={pid} replay={a.replay}')
            return 1
        return 0 if res['status'] == 'ok' else 2

    prop = load(pid)
    meta = dict(quick_runs = prop.quick_runs, thorough_runs = prop.thorough_runs, level = prop.level, rule = prop.rule, real = prop.real,
                stub = prop.stub, assumptions = prop.assumptions, state_measure = prop.state_measure)
    thorough = a.tier == 'thorough'
    runs = a.runs or (meta['thorough_runs'] if thorough else meta['quick_runs'])
    deadline = 780.0 if thorough else float(os.environ.get('VSIM_DEADLINE', 420))
    jobs = max(1, min(a.jobs, 8, runs))
    env = env_for(a.hashseed)
    procs = []
    sel = selectors.DefaultSelector()
    import tempfile
    for j in range(jobs):
        err = tempfile.TemporaryFile()
        p = subprocess.Popen([PY, '-m', 'sim.worker', pid, a.tier, str(a.seed), str(j), str(jobs), str(runs), str(deadline)], cwd = HERE, env = env,
                             stdout = subprocess.PIPE, stderr = err, text = False)
        os.set_blocking(p.stdout.fileno(), False)
        p.buf = b''
        p.err = err
        p.finished = False
        procs.append(p)
        sel.register(p.stdout, selectors.EVENT_READ, p)

    agg = dict(evaluations = 0, steps = 0, sim_ns = 0, incarnations = 0)
    keys, states, schedules = set(), set(), set()
    fired, probes, io, known = {}, {}, {}, {}
    samples, violations, harness = [], [], []
    redo = [0, 0]
    hashes = {}
    stopped = False
    hard_end = t0 + deadline + 400

    def add(d, s):
        for k, v in s.items():
            d[k] = d.get(k, 0) + v

    live = len(procs)
    while live and not violations:
        if time.monotonic() > hard_end:
            harness.append('driver deadline passed')
            break
        for key, _ in sel.select(timeout = 5):
            p = key.data
            try:
                b = p.stdout.read()
            except BlockingIOError:
                b = None
            if b is None:
                continue
            if b == b'':
                sel.unregister(p.stdout)
                live -= 1
                continue
            p.buf += b
            while b'\n' in p.buf:
                line, p.buf = p.buf.split(b'\n', 1)
                m = json.loads(line)
                if m['kind'] == 'done':
                    p.finished = True
                elif m['kind'] == 'stopped':
                    stopped = True
                elif m['kind'] == 'harness':
                    harness.append(m['msg'])
                elif m['kind'] == 'run':
                    agg['evaluations'] += 1
                    agg['steps'] += m['steps']
                    agg['sim_ns'] += m['sim_ns']
                    agg['incarnations'] += m['inc']
                    if m['key']:
                        keys.add(m['key'])
                    states.update(m['states'])
                    schedules.add(m['events'])
                    add(fired, m['fired'])
                    add(probes, m['probes'])
                    add(io, m['io'])
                    hashes[m['index']] = (m['status'], m['events'])
                    if 'sample' in m and len(samples) < 3:
                        samples.append(m['sample'])
                    if 'redo' in m:
                        redo[0] += 1
                        redo[1] += 0 if m['redo'] else 1
                    if m['status'] == 'known':
                        known[m['known']] = known.get(m['known'], 0) + 1
                    elif m['status'] == 'harness':
                        harness.append(m['msg'] + '\nplan: ' + json.dumps(m['plan'])[:3000])
                    elif m['status'] == 'violation':
                        violations.append(m)
    bad_exit = []
    for p in procs:
        if violations and not p.finished:
            p.terminate()
        rc = p.wait()
        if not violations and not p.finished:
            p.err.seek(0)
            bad_exit.append(p.err.read().decode(errors = 'replace')[-2000:])
    # clear leftovers of terminated workers
    if violations:
        time.sleep(0.2)

    rc = 0
    vio_lines = []
    if violations:
        m = min(violations, key = lambda v: v['index'])
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok = True)
        path = os.path.join(rdir, f'{pid}-{m["seed"]}.json')
        confirmed = None
        for cand in (m['plan'], m['original']):
            with open(path, 'w') as f:
                json.dump(dict(property = pid, seed = m['seed'], violation = dict(cls = m['cls'], msg = m['msg']), plan = cand,
                               minimised_from = m['original'], minimisation_runs = m['tries']), f, indent = 1)
            try:
                res = replay(pid, path, a.hashseed)
            except Exception as e:  # noqa
                res = dict(status = 'harness', msg = str(e))
            if res['status'] == 'violation' or (m['cls'] == 'no-progress' and res['status'] == 'hang'):
                confirmed = res
                break
        if confirmed is None:
            harness.append('violation did not replay: ' + m['cls'] + ' ' + m['msg'])
        else:
            print(f'{pid}: {m["cls"]}: {m["msg"]}')
            vio_lines.append(f'VIOLATION property={pid} replay={path}')
            rc = 1
    if rc == 0 and (harness or bad_exit):
        for h in (harness + bad_exit)[:5]:
            print('HARNESS-ERROR:', h, file = sys.stderr)
        rc = 2
    for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']:
        if k['property'] == pid:
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')

    wall = time.monotonic() - t0
    ev = dict(property = pid, tier = a.tier if a.tier in ('quick', 'thorough') else 'quick', seed = a.seed, level = meta['level'],
              coverage = dict(evaluations = agg['evaluations'], distinct_nontrivial = len(keys), rule = meta['rule'], samples = samples,
                              seeds_tried = agg['evaluations'], runs_per_hour = round(agg['evaluations'] * 3600 / max(wall, 1e-9)),
                              seeds_per_hour = round(agg['evaluations'] * 3600 / max(wall, 1e-9)),
                              simulated_seconds = round(agg['sim_ns'] / 1e9, 3), simulated_steps = agg['steps'], process_incarnations = agg['incarnations'],
                              fault_kinds_fired = fired, io_calls_seen = io, probes = probes, distinct_event_logs = len(schedules),
                              distinct_states = len(states), state_measure = meta.get('state_measure', ''),
                              determinism_resampled = redo[0], determinism_mismatches = redo[1], known_findings_hit = known,
                              stopped_by_deadline = stopped, workers = jobs, components_real = meta['real'], components_stub = meta['stub']),
              assumptions = meta['assumptions'], wall_s = round(wall, 2), violations = len(violations) if rc == 1 else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok = True)
    tmp = os.path.join(HERE, 'evidence', f'.{pid}.{os.getpid()}')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent = 1)
    os.replace(tmp, os.path.join(HERE, 'evidence', f'{pid}.json'))
    if a.dump:
        with open(a.dump, 'w') as f:
            json.dump({str(k): v for k, v in sorted(hashes.items())}, f, indent = 0)
    print(f'{pid} {a.tier}: {agg["evaluations"]} runs, {len(keys)} distinct non-trivial, {len(states)} states, faults fired {sum(fired.values())}, '
          f'redo {redo[0]}/{redo[1]} mismatches, {wall:.1f} s, exit {rc}')
    for line in vio_lines:
        print(line)
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())

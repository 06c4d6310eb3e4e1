"""Worker (zygote): imports the code under test once, then forks one child per simulated run.

usage: python -m sim.worker PROP TIER BASE_SEED START STRIDE COUNT DEADLINE_S   (run batch; JSON lines on fd 1)
       python -m sim.worker PROP replay FILE                                    (replay one plan)
"""
import json
import logging
import os
import sys
import time
import warnings


def load(pid):
    import importlib
    m = importlib.import_module(f'sim.props.{pid.lower()}')
    return m.PROP


def known_findings(pid):
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    try:
        with open(p) as f:
            return [k for k in json.load(f)['findings'] if k['property'] == pid]
    except FileNotFoundError:
        return []


def matches_known(kfs, res):
    for k in kfs:
        if k['match']['cls'] == res['cls'] and all(s in res['msg'] for s in k['match'].get('contains', [])):
            return k
    return None


def main():
    out_fd = os.dup(1)
    os.dup2(2, 1)
    out = os.fdopen(out_fd, 'w')

    def emit(**kw):
        out.write(json.dumps(kw) + '\n')
        out.flush()

    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    pid = sys.argv[1]
    from . import core, shim
    shim.lib()
    prop = load(pid)
    prop.setup() if hasattr(prop, 'setup') else None
    kfs = known_findings(pid)

    if sys.argv[2] == 'replay':
        with open(sys.argv[3]) as f:
            rep = json.load(f)
        plan = rep.get('plan', rep)
        res = core.execute(prop, plan)
        res['states'] = len(res['states'])
        emit(kind = 'replay', res = res)
        return

    tier, base, start, stride, count, deadline_s = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), float(sys.argv[7])
    t_end = time.monotonic() + deadline_s
    emit(kind = 'ready')
    for index in range(start, count, stride):
        if time.monotonic() > t_end:
            emit(kind = 'stopped', index = index)
            break
        try:
            plan = prop.make_plan(base, index, tier)
        except core.Violation as v:
            emit(kind = 'harness', index = index, msg = 'violation during generation ' + str(v))
            continue
        except Exception:
            import traceback
            emit(kind = 'harness', index = index, msg = traceback.format_exc()[-2000:])
            continue
        res = core.execute(prop, plan)
        if res['status'] == 'hang':
            res2 = core.execute(prop, plan, timeout = 240)
            res = res2 if res2['status'] != 'hang' else dict(res2, status = 'violation')
        rec = dict(kind = 'run', index = index, seed = plan['seed'], status = res['status'], events = res['events'], probes = res['probes'],
                   fired = res['fired'], states = res['states'], sim_ns = res['sim_ns'], steps = res['steps'], io = res['io'],
                   inc = res['incarnations'], key = prop.nontrivial(plan, res))
        if index < 3 * stride and index % stride == start % stride and index // stride < 1:
            rec['sample'] = plan
        if index % 29 == 0 and res['status'] == 'ok':
            again = core.execute(prop, plan)
            rec['redo'] = (again['status'] == res['status'] and again['events'] == res['events'])
        if res['status'] == 'harness':
            rec['msg'] = res['msg']
            rec['plan'] = plan
        if res['status'] == 'violation':
            k = matches_known(kfs, res)
            if k:
                rec['status'] = 'known'
                rec['known'] = k['id']
            else:
                if res['cls'] == 'no-progress':
                    best, tries = plan, 0
                else:
                    best, tries = core.minimise(prop, plan, res['cls'], budget_s = 60)
                fin = core.execute(prop, best)
                if fin['status'] != 'violation' or fin.get('cls') != res['cls']:
                    best, fin = plan, res
                rec.update(cls = res['cls'], msg = fin['msg'], plan = best, original = plan, tries = tries)
        emit(**rec)
    emit(kind = 'done')


if __name__ == '__main__':
    main()

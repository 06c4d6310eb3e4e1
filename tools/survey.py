"""Run many plans of a property without stopping and group what is found (development aid).
usage: survey.py ID RUNS [SEED] [SHOW]   (runs itself under the simulator's environment)"""
import collections
import importlib
import multiprocessing as mp
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def one(a):
    pid, seed, i = a
    from sim import core
    p = importlib.import_module('sim.props.' + pid.lower()).PROP
    plan = p.make_plan(seed, i, 'quick')
    r = core.execute(p, plan, 200)
    return i, r.get('status'), r.get('cls'), r.get('msg'), r.get('probes')


def init(pid):
    importlib.import_module('sim.props.' + pid.lower()).PROP.setup()


if __name__ == '__main__':
    if 'SURVEY' not in os.environ:
        import check
        e = check.env_for()
        e['SURVEY'] = '1'
        os.execve(check.PY, [check.PY] + sys.argv, e)
    pid, n = sys.argv[1].upper(), int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    show = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    g, probes = collections.defaultdict(list), collections.Counter()
    with mp.get_context('fork').Pool(8, init, (pid,)) as pool:
        for i, st, cls, msg, pr in pool.imap_unordered(one, [(pid, seed, i) for i in range(n)]):
            probes.update(pr or {})
            if st != 'ok':
                key = re.sub(r'[0-9a-f]{8}-[0-9a-f-]{27}|\d+', 'N', (msg or '').split('\n')[0])[:110]
                g[st, cls, key].append((i, msg))
    print(dict(probes))
    for k, v in sorted(g.items(), key = lambda x: -len(x[1])):
        print(f'--- {len(v)} x {k} runs {[i for i, _ in v][:8]}')
        for i, m in v[:show]:
            print((m or '')[-1500:])

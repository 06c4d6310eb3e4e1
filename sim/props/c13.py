"""C13: processes working with one dataset at the same time: whole versions only, right values or a refusal, no lost saves."""
import copy
import os
import pickle
import random
import time

from .. import core, oracle, shim, world, zoo
from ..core import check
from ..saving import MUT, SaveProp, new_model

PATIENCE = 400


class Board:
    """What the processes tell the judge, in the order in which it happens (kept outside the simulated disk)."""

    def __init__(self, ctx):
        self.path = os.path.join(ctx.root, 'board')

    def post(self, *rec):
        b = pickle.dumps(rec)
        with open(self.path, 'ab') as f:
            f.write(len(b).to_bytes(8, 'little') + b)

    def read(self):
        out = []
        with open(self.path, 'rb') as f:
            d = f.read()
        i = 0
        while i < len(d):
            n = int.from_bytes(d[i:i + 8], 'little')
            out.append(pickle.loads(d[i + 8:i + 8 + n]))
            i += 8 + n
        return out

    def version(self, content):
        for rec in reversed(self.read()):
            if rec[0] == 'version' and rec[1] == content:
                return rec[2], rec[3]
        return None


def vid(content):
    return core.sha(sorted(content.items()))


def linearizable(first, ops):
    """ops: (kind, value, begin, end): is there an order of the operations, consistent with real time, in which each read
    gives what was last written? end None: may have taken effect at any time after it began, or never."""
    n = len(ops)
    seen = set()
    stack = [(frozenset(), first)]
    need = frozenset(i for i, o in enumerate(ops) if o[3] is not None)
    while stack:
        done, val = stack.pop()
        if need <= done:
            return True
        if (done, val) in seen:
            continue
        seen.add((done, val))
        left = [i for i in range(n) if i not in done]
        horizon = min(ops[i][3] for i in left if ops[i][3] is not None)
        for i in left:
            k, v, t0, t1 = ops[i]
            if t0 > horizon:
                continue
            if k == 'r' and v != val:
                continue
            stack.append((done | {i}, v if k == 'w' else val))
    return False


class P(SaveProp):
    id = 'C13'
    quick_runs = 400
    thorough_runs = 6000
    rule = ('one evaluation is one seeded interleaving, at system call granularity, of two to four simulated processes which open, read, edit and save the same dataset, some of them being killed or '
            'meeting a disk error in a save; distinct by hash of the event log')
    state_measure = 'distinct (what the processes do, number of switches between them, number of refusals, outcome) tuples'
    assumptions = ['advisory file locks work on the file system holding the hdf5 file', 'a session which opened an older version and then saves replaces the newer one (the last save wins)']

    def generate(self, rng, index, tier):
        big = tier != 'quick'
        actors = []
        n = rng.randint(2, 4)
        for i in range(n):
            what = rng.choice(['writer', 'reader']) if i > 1 else ['writer', 'reader'][i] if rng.random() < 0.6 else 'writer'
            if what == 'writer':
                rounds = [dict(edits = world.gen_edits(rng, 1, 3, arrays = rng.choice([0.0, 0.4, 0.9])), how = rng.choice(['store', 'store', 'context', 'store_twice', 'keep', 'only_if_modified']),
                               nap = rng.choice([0, 0, 0.001, 0.2])) for _ in range(rng.randint(1, 4 if big else 3))]
                x = rng.random()
                fault = None
                if x < 0.15:
                    fault = dict(kind = 'crash', round = rng.randrange(len(rounds)), nth = rng.randrange(60), how = rng.choice(['crash_before', 'crash_after', 'torn_crash']))
                elif x < 0.3:
                    fault = dict(kind = 'fail', round = rng.randrange(len(rounds)), nth = rng.randrange(60), err = rng.choice(['EIO', 'ENOSPC', 'EACCES']))
                actors.append(dict(what = 'writer', rounds = rounds, fault = fault))
            else:
                actors.append(dict(what = 'reader', rounds = [dict(how = rng.choice(['objects', 'objects', 'objects', 'context', 'lazy', 'parts']), q = rng.randrange(1 << 30), nap = rng.choice([0, 0, 0.001, 0.1]))
                                                              for _ in range(rng.randint(1, 5))]))
        style = rng.random()
        g = (lambda: rng.randrange(4)) if style < 0.4 else (lambda: rng.randrange(40)) if style < 0.8 else (lambda: rng.choice([0, 1, 5, 300]))
        sched = [[g(), rng.randrange(4)] for _ in range(rng.randrange(10, 300))]
        return dict(ops = world.gen_edits(rng, 2, 6, arrays = 0.5, remove = 0, others = 0.1), actors = actors, sched = sched)

    def shrink_lists(self, plan):
        return [['actors']] + [['actors', i, 'rounds'] for i in range(len(plan['actors']))] + [['sched'], ['ops']] + \
            [['actors', i, 'rounds', j, 'edits'] for i, a in enumerate(plan['actors']) if a['what'] == 'writer' for j in range(len(a['rounds']))]

    def simplify(self, plan):
        for i, a in enumerate(plan['actors']):
            if a.get('fault'):
                p = copy.deepcopy(plan)
                p['actors'][i]['fault'] = None
                yield p

    # ------------------------------------------------------------------ the processes

    def create(self, c, plan):
        m = new_model('a.epc')
        w = world.World(m)
        w.env.make(m, 'pointset', 1)  # the dataset has an hdf5 file
        for op in plan['ops']:
            w.apply(op)
        m.store_epc()
        m.h5_release()
        content = oracle.memory_content(m)
        Board(c).post('version', content, w.env, w.soft)
        return vid(content)

    def insist(self, c, f, m):
        """Do something which may be refused because another process has the hdf5 file open."""
        for _ in range(PATIENCE):
            try:
                return f()
            except OSError as e:
                check(e.errno in (None, 11) or 'lock' in str(e), 'unexpected-exception', lambda: f'{type(e).__name__} {e}')
                c.probe('refused')
                if m is not None:
                    m.h5_release()
                time.sleep(0.05)
        raise core.Violation('no-progress', f'refused {PATIENCE} times')

    def known(self, c, m, t0, who):
        """Which version has been opened: it must be one that somebody saved, whole."""
        content = oracle.memory_content(m)
        v = Board(c).version(content)
        if v is None:
            last = [r for r in Board(c).read() if r[0] == 'version'][-1][1]
            raise core.Violation('mixed-version', f'{who}: what was opened is no version ever saved: ' + oracle.diff_content(last, content))
        Board(c).post('op', 'r', vid(content), t0, self.tick(c))
        return v

    def tick(self, c):
        return len(Board(c).read())

    def writer(self, c, plan, i, a):
        import resqpy.model as rq
        m = None
        for j, s in enumerate(a['rounds']):
            if s['nap']:
                time.sleep(s['nap'])
            cm = None
            if m is None or s['how'] != 'keep':
                Board(c).post('mark')
                t0 = self.tick(c)
                if s['how'] == 'context':
                    cm = rq.ModelContext('a.epc', mode = 'rw')
                    m = cm.__enter__()
                else:
                    m = rq.Model('a.epc')
                env, soft = self.known(c, m, t0, f'writer {i}')
                w = world.World(m, env = copy.deepcopy(env))
                w.soft = set(soft)
            for op in s['edits']:
                op = list(op)
                if op[-1] is not None:
                    op[-1] = op[-1] ^ (i + 1) << 20
                self.insist(c, lambda: w.apply(op), m)
                c.event(*op)
            m.h5_release()
            m.set_modified()
            content = oracle.memory_content(m)
            Board(c).post('version', content, copy.deepcopy(w.env), set(w.soft))
            f = a['fault'] if a['fault'] and a['fault']['round'] == j else None
            for again in range(2 if s['how'] == 'store_twice' else 1):
                t0 = self.tick(c)
                Board(c).post('begin', i, vid(content), t0)
                if f and f['kind'] == 'crash':
                    shim.arm([dict(cls = MUT, nth = f['nth'], action = f['how'], arg = 500)])
                elif f:
                    shim.arm([dict(cls = ['open_w', 'write', 'trunc', 'close', 'rename'], nth = f['nth'], action = 'err', arg = f['err'])])
                failed = None
                try:
                    if cm is not None:
                        cm.__exit__(None, None, None)
                    elif s['how'] == 'only_if_modified':
                        m.store_epc(only_if_modified = True)
                    else:
                        m.store_epc()
                except OSError as e:
                    failed = e
                shim.disarm()
                if failed is not None:
                    check(f and f['kind'] == 'fail', 'unexpected-failure', f'writer {i}: save failed though nothing was wrong: {failed}')
                    c.probe('save-failed')
                    Board(c).post('failed', i)
                    t0 = self.tick(c)
                    Board(c).post('begin', i, vid(content), t0)
                    m.store_epc()
                f = None
                Board(c).post('end', i, self.tick(c))
                Board(c).post('op', 'w', vid(content), t0, self.tick(c))
                c.probe('saved')
            if s['how'] != 'keep' and s['nap'] == 0.2:
                m = None
        return True

    def reader(self, c, plan, i, a):
        import resqpy.model as rq
        for s in a['rounds']:
            if s['nap']:
                time.sleep(s['nap'])
            r = random.Random(s['q'])
            Board(c).post('mark')
            t0 = self.tick(c)
            if s['how'] == 'lazy':
                names = sorted(rq.Model('a.epc', full_load = False).list_of_parts(only_objects = False))
                vs = [x for x in Board(c).read() if x[0] == 'version']
                ok = [x for x in vs if sorted(n for n in x[1] if n[0] != '[' and not n.startswith('docProps') and '_rels/' not in n) == [n[1:] if n.startswith('/') else n for n in names]]
                check(ok, 'mixed-version', lambda: f'reader {i}: list of parts is that of no version saved')
                c.probe('listed')
                continue
            cm = None
            if s['how'] == 'context':
                cm = rq.ModelContext('a.epc')
                m = cm.__enter__()
            else:
                m = rq.Model('a.epc')
            env, _ = self.known(c, m, t0, f'reader {i}')
            if s['how'] != 'parts':
                objs = [o for o in env.objs if o[2] is not None]
                r.shuffle(objs)
                for k, u, e in objs[:r.randint(1, 8)]:
                    got = self.insist(c, lambda: zoo.READ[k](m, zoo.U(u), e), m)
                    d = zoo.diff(e, got)
                    check(d is None, 'value', lambda: f'reader {i}: {k} {u}: {d}')
                    c.probe('objects-read')
                    if r.random() < 0.3:
                        m.h5_release()
                    if r.random() < 0.5:
                        time.sleep(r.choice([0.01, 0.06, 0.3]))  # perhaps with the hdf5 file open
            if cm is not None:
                cm.__exit__(None, None, None)
                check(shim.open_fds('.h5') == 0, 'left-open', f'reader {i}: hdf5 file still open after the model context has exited')
            else:
                m.h5_release()
        return True

    def after(self, c, plan, left):
        """Nothing is spoiled: a later process finds a whole version, with all its values, and can carry on."""
        import resqpy.model as rq
        m = rq.Model('a.epc')
        t0 = self.tick(c)
        env, soft = self.known(c, m, t0, 'afterwards')
        for k, u, e in env.objs:
            if e is not None:
                d = zoo.diff(e, zoo.READ[k](m, zoo.U(u), e))
                check(d is None, 'value', lambda: f'afterwards: {k} {u}: {d}')
        m.h5_release()
        w = world.World(m, env = copy.deepcopy(env))
        w.env.make(m, 'pointset', 77)
        m.store_epc()
        m.h5_release()
        content = oracle.memory_content(m)
        check(oracle.zip_content('a.epc') == content, 'save-incomplete', 'afterwards: a save is not complete')
        return vid(oracle.memory_content(rq.Model('a.epc'))) == vid(content)

    def execute(self, plan, ctx):
        first = core.settle(ctx.process(self.create, plan))
        specs = [dict(fn = self.writer if a['what'] == 'writer' else self.reader, args = (plan, i, a)) for i, a in enumerate(plan['actors'])]
        incs = ctx.concurrently(specs, plan['sched'])
        died = 0
        for a, inc in zip(plan['actors'], incs):
            if inc.status == 'crash' and a.get('fault') and a['fault']['kind'] == 'crash':
                died += 1
                ctx.probe('writer-died')
                continue
            core.settle(inc)
        recs = Board(ctx).read()
        left = [n for n in os.listdir(ctx.dir) if n not in ('a.epc', 'a.h5')]
        check(len(left) <= died, 'stray-files', lambda: f'files left in the directory: {sorted(left)[:3]} though {died} processes have died')
        ok = core.settle(ctx.process(self.after, plan, left))
        check(ok, 'save-incomplete', 'afterwards: what was saved is not what is loaded')
        ops = [r[1:] for r in Board(ctx).read() if r[0] == 'op']
        # saves begun but neither ended nor failed: those of processes which died
        open_ = {}
        for r in recs:
            if r[0] == 'begin':
                open_[r[1]] = ('w', r[2], r[3], None)
            elif r[0] in ('end', 'failed'):
                open_.pop(r[1], None)
        ops += list(open_.values())
        check(len(open_) <= died, 'unexpected-crash', 'a save neither ended nor failed')
        check(linearizable(first, ops), 'not-linearizable', lambda: f'no order of the saves and opens explains what was seen: first {first}, {ops}')
        n = ctx.probes.get('switches', 0)
        ctx.state(''.join(a['what'][0] for a in plan['actors']) + f':{min(n, 40)}:{min(ctx.probes.get("refused", 0), 9)}:{died}:{len(ops)}')
        ctx.event('ops', [o[:2] for o in ops])


PROP = P()

"""C02: a save that fails is reported, leaves the previous epc, the directory and the in-memory model as they were, and can be retried."""
import os

from .. import core, oracle, shim, world
from ..core import check
from ..saving import SaveProp, Scene, readable

CLS = ['open_w', 'write', 'trunc', 'close', 'rename', 'mkdir', 'fsync']


def listing(d):
    out = []
    for base, _, names in os.walk(d):
        out += [os.path.relpath(os.path.join(base, n), d) for n in names]
    return sorted(out)


class P(SaveProp):
    id = 'C02'
    level = 'fault_enumeration'
    quick_runs = 700
    thorough_runs = 6000
    rule = 'one evaluation is one seeded history of edits ending in a save, branched into several copies of the simulated disk, each with one seeded disk error, full disk or short write during the save; distinct by hash of the event log'
    state_measure = 'distinct (save mode, kind of fault, error, I/O call index, outcome) tuples'
    assumptions = ['removal of files does not fail at the same time as the injected fault']

    def generate(self, rng, index, tier):
        n = 10 if tier == 'quick' else 24
        faults = []
        for _ in range(n):
            x = rng.random()
            if x < 0.3:
                faults.append(['quota', rng.random(), None, 1])
            elif x < 0.75:
                faults.append(['err', rng.choice([rng.random(), 1 - rng.random() / 20, rng.random() / 20]), rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EDQUOT', 'EROFS']), rng.choice([1, 1, -1])])
            elif x < 0.9:
                faults.append(['short', rng.random(), rng.choice([1, 300, 999]), rng.choice([1, 3, -1])])
            else:
                faults.append(['nodir', 0.0, None, 1])
        return dict(mode = rng.choice(Scene.MODES), ops = world.gen_edits(rng, 1, 6, arrays = 0.2), ops2 = world.gen_edits(rng, 1, 4, arrays = 0.2), faults = faults)

    def shrink_lists(self, plan):
        return [['faults'], ['ops'], ['ops2']]

    def execute(self, plan, ctx):
        core.settle(ctx.process(self.history, plan))

    def history(self, ctx, plan):
        s = Scene(plan)
        mode = s.mode
        n = s.calls(ctx, CLS)
        size = 4000
        for i, (kind, frac, arg, repeat) in enumerate(plan['faults']):
            k = min(n - 1, int(frac * n))
            b = ctx.branch(i)
            before = listing(b.dir)
            if kind == 'quota':
                faults = [dict(quota = int(frac * size * 4))]
            elif kind == 'nodir':
                faults = []
            else:
                faults = [dict(cls = CLS, nth = k, action = kind, arg = arg, repeat = repeat)]

            def attempt(c):
                try:
                    if kind == 'nodir':
                        s.m.store_epc('missing/dir/x.epc')
                    else:
                        s.save()
                    failed = None
                except Exception as e:  # noqa
                    failed = type(e).__name__
                shim.disarm()
                left = listing(c.dir)
                mem = oracle.memory_content(s.m)
                mod = s.m.is_modified() if hasattr(s.m, 'is_modified') else s.m.modified
                ef = s.m.epc_file
                c.ack((failed, left, mem, mod, ef))
                state = None
                if failed:
                    if os.path.exists(s.target) or os.path.islink(s.target):
                        with open(s.target, 'rb') as f:
                            state = f.read()
                    # the same session can carry on: edit and save again
                    retry_ok = None
                    if mode == 'context':
                        s.m.store_epc()
                    else:
                        s.save()
                return (state, s.m.modified)

            inc = b.process(attempt, fresh = False, faults = faults)
            what = f'{kind} {arg or ""} at I/O call {k} of {n} (repeat {repeat}) of a {mode} save'
            if not inc.acks:
                core.settle(inc)
            failed, left, mem, mod, ef = inc.acks[0]
            state, mod2 = core.settle(inc)
            check(mem == s.v2, 'memory-changed', lambda: f'{what}: in-memory model changed by the save: {oracle.diff_content(s.v2, mem)}')
            if failed:
                ctx.probe('failed-' + failed)
                check(mod, 'modified-flag', f'{what}: model no longer marked as modified after a failed save')
                check(ef == s.name, 'epc-name', f'{what}: model has changed to epc file {ef} after a failed save')
                check(left == before, 'stray-files', lambda: f'{what}: files in directory changed: {sorted(set(left) ^ set(before))[:4]}')
                old = None if mode in ('first', 'rename') else s.v1
                if state is None:
                    check(old is None, 'lost-on-error', f'{what}: epc file has vanished')
                else:
                    p = os.path.join(b.root, 'probe.epc')
                    with open(p, 'wb') as f:
                        f.write(state)
                    try:
                        got = oracle.zip_content(p)
                    except Exception as e:  # noqa
                        raise core.Violation('lost-on-error', f'{what}: epc file no longer readable: {type(e).__name__} {e}')
                    check(got == old, 'lost-on-error', lambda: f'{what}: epc file is not the previous version: {oracle.diff_content(old or {}, got)}')
            else:
                ctx.probe('absorbed')
            if kind == 'nodir':
                check(failed, 'failure-not-reported', what)
            readable(b, s.target, what + (', then saved again' if failed else ' reported as successful'), [s.v2], 'failure-not-reported' if not failed else 'retry-failed')
            if mode == 'rename' and s.name != s.target:
                readable(b, s.name, what + ' (file of previous name)', [s.v1], 'lost-on-error')
            check(not mod2, 'modified-flag', f'{what}: model still marked as modified after a successful save')
            ctx.state(f'{mode[:5]}:{kind}:{arg}:{k}:{bool(failed)}')
            ctx.event('fault', i, kind, k, failed)
            ctx.merge(b)
        return True


PROP = P()

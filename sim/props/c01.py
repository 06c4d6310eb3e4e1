"""C01: a stored epc is replaced atomically: a crash at any point of a save leaves the previous or the new content."""
from .. import core, world
from ..saving import MUT, SaveProp, Scene, load_back, readable
from ..core import check


def objs(d):
    return {x: y for x, y in d.items() if x.endswith('.xml') and x.startswith('obj_')}


class P(SaveProp):
    id = 'C01'
    level = 'fault_enumeration'
    quick_runs = 900
    thorough_runs = 6000
    rule = 'one evaluation is one seeded history of edits ending in a save, branched into several copies of the simulated disk, each with the process killed at one seeded I/O call of the save; distinct by hash of the event log'
    state_measure = 'distinct (save mode, I/O call index killed, manner of kill, outcome old/new) tuples'
    assumptions = ['a crash is the death of the process: data given to the kernel before it survives', 'rename(2) is atomic']

    def generate(self, rng, index, tier):
        n = 10 if tier == 'quick' else 24
        faults = []
        for _ in range(n):
            f = rng.choice([rng.random(), rng.random(), 1 - rng.random() / 20])
            faults.append([f, rng.choice(['crash_before', 'crash_after', 'torn_crash', 'torn_crash']), rng.choice([1, 100, 500, 900, 999])])
        return dict(mode = rng.choice(Scene.MODES), ops = world.gen_edits(rng, 1, 6, arrays = 0.2), ops2 = world.gen_edits(rng, 1, 4, arrays = 0.2), faults = faults)

    def shrink_lists(self, plan):
        return [['faults'], ['ops'], ['ops2']]

    def execute(self, plan, ctx):
        core.settle(ctx.process(self.history, plan))

    # --- in the simulated process
    def history(self, ctx, plan):
        s = Scene(plan)
        mode = s.mode
        n = s.calls(ctx, MUT)
        for i, (frac, action, arg) in enumerate(plan['faults']):
            k = min(n - 1, int(frac * n))
            b = ctx.branch(i)

            def kill(c):
                s.save()
                c.ack('saved')

            inc = b.process(kill, fresh = False, faults = [dict(cls = MUT, nth = k, action = action, arg = arg)])
            what = f'process killed ({action}) at I/O call {k} of {n} of a {mode} save'
            if inc.status not in ('crash', 'ok'):
                core.settle(inc)
            saved = 'saved' in inc.acks
            old = None if (mode in ('first', 'rename')) else s.v1
            got = readable(b, s.target, what, [s.v2] if saved else [old, s.v2], 'lost-on-crash')
            if mode == 'rename':
                readable(b, s.name, what + ' (previous file)', [s.v1], 'lost-on-crash')
            ctx.state(f'{mode[:5]}:{k}:{action[-6:]}:{got}')
            ctx.probe('saw-old' if got in (0, None) and not saved else 'saw-new')
            if got is not None and i % 3 == 0:
                again = core.settle(b.process(load_back, s.target))
                check(objs(again) == objs(s.v2 if (saved or got == 1) else s.v1), 'reopen-differs', f'{what}: resqpy does not reopen what is on disk')
            # a later session can save again over whatever the crash left behind
            if i % 4 == 1:

                def redo(c):
                    if mode == 'context':
                        s.m.store_epc()
                    else:
                        s.save()

                core.settle(b.process(redo, fresh = False))
                readable(b, s.target, what + ', then saved again', [s.v2], 'save-after-crash')
            ctx.event('fault', i, k, action, inc.status, got)
            ctx.merge(b)
        return True


PROP = P()

"""C04: objects written to a model hold the same values when read back by any later session."""
import random

from .. import core, saga, zoo
from ..core import check
from ..saving import SaveProp


class S(saga.Saga):

    def read_all(self, c, w, st, s, where, frac = 1.0):
        r = random.Random(s['q'] + len(where))
        objs = list(w.env.objs)
        r.shuffle(objs)
        for k, u, e in objs:
            if e is None or r.random() > frac:
                continue
            got = zoo.READ[k](w.m, zoo.U(u), e)
            d = zoo.diff(e, got)
            check(d is None, 'value', lambda: f'{k} {u} read {where}: {d}')
            c.probe('objects-read')
            c.state(k + ':' + where[:8])
            if r.random() < 0.2:
                w.m.h5_release()
        w.m.h5_release()

    def opened(self, c, w, st, s):
        if s['open'] != 'new':
            self.read_all(c, w, st, s, f'after opening ({s["open"]})')

    def edited(self, c, w, st, s):
        self.read_all(c, w, st, s, 'in the session which wrote it', 0.5)


def gen_kinds(rng, n):
    """Edits which add objects of evenly chosen kinds."""
    ks = zoo.all_kinds()
    return [['add', rng.choice(ks), rng.randrange(1 << 30)] for _ in range(n)]


class P(SaveProp):
    id = 'C04'
    quick_runs = 900
    thorough_runs = 5000
    rule = 'one evaluation is one seeded history of simulated processes (some saves failing or crashing) adding seeded objects of the supported classes, every object being read through its class in later processes and compared with the values it was made from; distinct by hash of the event log'
    state_measure = 'distinct (class of object, situation in which it was read) pairs'
    assumptions = ['objects reused because an equivalent one exists are compared with the one that was reused']

    def generate(self, rng, index, tier):
        big = tier != 'quick'
        ss = saga.gen_sessions(rng, 1, 5 if big else 3, 0, 3, crash = 0.07, fail = 0.05, discard = 0.07, remove = 0.2, others = 0.1, arrays = 0.5)
        for s in ss:
            s['edits'] += gen_kinds(rng, rng.randint(2, 9 if big else 6))
            rng.shuffle(s['edits'])
        # every kind in turn, so that each is met often whatever the choices above
        ks = zoo.all_kinds()
        ss[0]['edits'].append(['add', ks[index % len(ks)], rng.randrange(1 << 30)])
        if index % 90 == 45:
            ss[0]['edits'].append(['add', 'grid_at_origin', rng.randrange(1 << 30)])
        return dict(name = rng.choice(saga.NAMES), sessions = ss)

    def shrink_lists(self, plan):
        return [['sessions']] + [['sessions', i, 'edits'] for i in range(len(plan['sessions']))]

    def execute(self, plan, ctx):
        s = S()
        st = s.run(ctx, plan['sessions'], plan['name'])
        if st.content is not None:
            for how in ('model', 'copy'):
                st = s.step(ctx, st, dict(open = how, edits = [], end = 'store', at = 0, how = '', err = '', jump = 0, q = plan['seed'] % 1000 * 2))


PROP = P()

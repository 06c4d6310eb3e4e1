"""C03: what is stored is the whole model: the package on disk, the model in memory and the model loaded later agree."""
import os

from .. import core, oracle, refmodel, saga, shim
from ..core import check
from ..saving import SaveProp


class S(saga.Saga):

    def opened(self, c, w, st, s):
        if s['open'] == 'new':
            return
        mem = oracle.memory_content(w.m)
        want = dict(st.content)
        if s['open'] == 'copy':  # only the name of the hdf5 file differs
            for k in list(want):
                if 'EpcExternalPartReference' in k and k.endswith('.rels'):
                    want.pop(k), mem.pop(k, None)
        check(mem == want, 'load-differs', lambda: f'model opened from {st.name}.epc ({s["open"]}) differs from what was stored: {oracle.diff_content(want, mem)}')
        self.agree(c, w, st)

    def saved(self, c, w, st, s):
        p = st.name + '.epc'
        try:
            roots = oracle.zip_roots(p)
        except Exception as e:  # noqa
            raise core.Violation('unreadable', f'stored epc {p!r} is not readable by an independent reader: {type(e).__name__} {e}')
        got = {n: oracle.digest(r) for n, r in roots.items()}
        check(got == st.content, 'store-differs', lambda: f'stored package differs from the model: {oracle.diff_content(st.content, got)}')
        f = oracle.structure_fault(roots)
        check(f is None, 'package-structure', f)
        check(oracle.memory_content(w.m) == st.content, 'memory-changed', 'storing changed the model in memory')
        check(not w.m.modified, 'modified-flag', 'model marked as modified after store')
        r = refmodel.Ref(roots)
        for n, t in r.h5_targets.items():
            check(t == st.name + '.h5', 'hdf5-target', f'external target of {n} is {t!r}, hdf5 file is {st.name + ".h5"!r}')
        c.probe('parts-stored', len(r.parts))
        c.state(core.sha(sorted((p.type for p in r.parts.values()))))

    def agree(self, c, w, st):
        """The loaded model's catalogue agrees with the package as read independently."""
        m = w.m
        r = refmodel.of_file(m.epc_file)
        names = [p.name for p in r.objects()]
        check(sorted(m.parts()) == sorted(names), 'catalogue', lambda: f'parts() {sorted(set(m.parts()) ^ set(names))[:3]}')
        for p in r.parts.values():
            what = f'of part {p.name} after loading'
            check(str(m.uuid_for_part(p.name)) == p.uuid, 'catalogue', f'uuid {what}')
            check(m.type_of_part(p.name) == p.type, 'catalogue', lambda: f'type {what}: {m.type_of_part(p.name)} not {p.type}')
            check(m.part_for_uuid(p.uuid) == p.name, 'catalogue', f'part for uuid {what}')
            if p in r.exts():
                continue
            check((m.citation_title_for_part(p.name) or '').strip() == p.title.strip(), 'catalogue', lambda: f'title {what}: {m.citation_title_for_part(p.name)!r} not {p.title!r}')
            e = m.root_for_part(p.name)
            check(oracle.digest(e) == oracle.digest(p.root), 'catalogue', f'xml {what}')
        for k, u, _ in w.env.objs:
            check(m.uuid_is_present(u), 'lost-object', f'{k} {u} stored earlier is not in the model opened later')
        for u in w.removed:
            check(not m.uuid_is_present(u), 'resurrected', f'object {u} removed earlier is in the model opened later')

    def between(self, ctx, st, s):
        self.crashed = self.crashed or s['end'] == 'crash'
        left = [f for f in os.listdir(ctx.dir) if not f.endswith(('.epc', '.h5')) and not self.crashed]
        check(not left, 'stray-files', f'{left}')


class P(SaveProp):
    id = 'C03'
    quick_runs = 1000
    thorough_runs = 3000
    rule = 'one evaluation is one seeded history of several simulated processes which open, edit and store a model (some failing, crashing or discarding), the package being read back independently after every store and the catalogue compared after every open; distinct by hash of the event log'
    state_measure = 'distinct multisets of part types stored'

    def generate(self, rng, index, tier):
        big = tier != 'quick'
        return dict(name = rng.choice(saga.NAMES), sessions = saga.gen_sessions(rng, 2, 7 if big else 4, 1, 9 if big else 6, arrays = rng.choice([0.1, 0.6])))

    def shrink_lists(self, plan):
        return [['sessions']] + [['sessions', i, 'edits'] for i in range(len(plan['sessions']))]

    def execute(self, plan, ctx):
        s = S()
        s.crashed = False
        st = s.run(ctx, plan['sessions'], plan['name'])
        if st.content is not None:
            # the end of every history: open once more in a fresh process, store unmodified, nothing changes
            last = dict(open = 'model', edits = [], end = 'store', at = 0, how = '', err = '', jump = 0, q = 0)
            st2 = s.step(ctx, st, last)
            check(st2.content == st.content, 'not-idempotent', lambda: 'opening and storing again changed the package: ' + oracle.diff_content(st.content, st2.content))


PROP = P()

"""C09: relationships: symmetric, complete and free of dangling entries, in memory and on disk, through any history."""
from .. import core, refmodel, saga
from ..core import check
from ..saving import SaveProp


def I(s):
    return {int(x.replace('-', ''), 16) for x in s}


def examine(c, m, ref, soft, where):
    """The model's answers about relationships against brute force over raw xml."""
    f = ref.relationship_fault()
    check(f is None, 'relationship-xml', f'{where}: {f}')
    rel = ref.relations()
    names = {p.uuid: p.name for p in ref.objects()}
    for pair in soft:
        a, b = sorted(pair)
        check(b in rel[a][0] | rel[a][1] | rel[a][2] and a in rel[b][0] | rel[b][1] | rel[b][2], 'lost-relationship',
              f'{where}: relationship made between {a} and {b} is not recorded')
    n = 0
    exts = I(p.uuid for p in ref.exts())  # relationships with hdf5 parts may or may not be listed as soft
    for u, (a, b, s) in rel.items():
        n += len(a | b | s)
        got = [m.uuids_as_int_referenced_by_uuid(u), m.uuids_as_int_referencing_uuid(u), m.uuids_as_int_softly_related_to_uuid(u), m.uuids_as_int_related_to_uuid(u)]
        for mode, (g, w) in enumerate(zip(got, (a, b, s, a | b | s))):
            check((g or set()) - exts == I(w), 'relations', lambda: f'{where}: {["referenced by", "referencing", "softly related to", "related to"][mode]} {names[u]}: {len(g or ())} found, {len(w)} expected')
        for mode, w in ((0, a), (1, b), (2, s), (None, a | b | s)):
            g = m.uuids(related_uuid = m.uuid_for_part(names[u]), related_mode = mode)
            check(sorted(str(x) for x in g) == sorted(w & set(names)), 'related-uuids', lambda: f'{where}: uuids(related_uuid, related_mode = {mode}) for {names[u]}')
    for p in ref.objects():
        g = m.supporting_representation_for_part(p.name) if p.supporting or p.type.endswith('Property') else None
        check((str(g) if g else None) == p.supporting, 'supporting', lambda: f'{where}: supporting representation of {p.name}: {g} not {p.supporting}')
    for u in names:
        w = sorted(p.name for p in ref.objects() if p.supporting == u)
        g = sorted(m.parts_list_filtered_by_supporting_uuid(m.parts(), u))
        check(g == w, 'supporting', lambda: f'{where}: parts supported by {names[u]}')
    nodes, edges = m.as_graph()
    check(set(nodes) == set(names), 'graph', f'{where}: nodes of graph')
    we = {frozenset((u, v)) for u, r in rel.items() for v in r[0] | r[1] | r[2] if v in names}
    check(set(edges) == we, 'graph', lambda: f'{where}: edges of graph: {len(edges)} found, {len(we)} expected')
    c.probe('relationships-compared', n)
    c.state(core.sha(sorted((ref.by_uuid[u].type, len(a), len(b), len(s)) for u, (a, b, s) in rel.items())))


class S(saga.Saga):

    def opened(self, c, w, st, s):
        if s['open'] != 'new':
            examine(c, w.m, refmodel.of_file(w.m.epc_file), w.soft, 'after opening')
            w.m.check_catalogue_dictionaries(check_xml = False)

    def edited(self, c, w, st, s):
        examine(c, w.m, refmodel.of_model(w.m), w.soft, 'in memory')

    def saved(self, c, w, st, s):
        examine(c, w.m, refmodel.of_file(st.name + '.epc'), w.soft, 'as stored')


class P(SaveProp):
    id = 'C09'
    quick_runs = 700
    thorough_runs = 3000
    rule = 'one evaluation is one seeded history of simulated processes which add, relate and remove objects and store and reopen the model, all relationships being compared with brute force over raw xml at each stage; distinct by hash of the event log'
    state_measure = 'distinct multisets of (part type, number of referenced, referencing and soft relations)'

    def generate(self, rng, index, tier):
        big = tier != 'quick'
        return dict(name = 'a', sessions = saga.gen_sessions(rng, 2, 6 if big else 4, 2, 12 if big else 8, crash = 0.08, fail = 0.05, discard = 0.1, arrays = 0.4,
                                                             remove = rng.choice([0.1, 0.35]), others = rng.choice([0.2, 0.4])))

    def shrink_lists(self, plan):
        return [['sessions']] + [['sessions', i, 'edits'] for i in range(len(plan['sessions']))]

    def execute(self, plan, ctx):
        s = S()
        st = s.run(ctx, plan['sessions'], plan['name'])
        if st.content is not None:
            s.step(ctx, st, dict(open = 'model', edits = [], end = 'store', at = 0, how = '', err = '', jump = 0, q = 0))


PROP = P()

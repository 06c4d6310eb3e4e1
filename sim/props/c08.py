"""C08: catalogue queries return exactly the matching parts, whatever the history of edits, restarts and clock jumps."""
import random

from .. import core, refmodel, saga, shim
from ..core import check
from ..saving import SaveProp

MODES = ['is', 'starts', 'ends', 'contains', 'is not', 'does not start', 'does not end', 'does not contain']


def title_match(t, q, mode, cs):
    t, q = t.strip(), q.strip()
    if not cs:
        t, q = t.upper(), q.upper()
    b = {'is': t == q, 'starts': t.startswith(q), 'ends': t.endswith(q), 'contains': q in t}
    for k, n in (('is', 'is not'), ('starts', 'does not start'), ('ends', 'does not end'), ('contains', 'does not contain')):
        b[n] = not b[k]
    return b[mode]


def gen_query(r, ref, names):
    """A random conjunction of filters, made from values present and absent. Returns (kwargs, predicate)."""
    ps = ref.objects()
    p = ps[r.randrange(len(ps))]
    kw, tests = {}, []
    if r.random() < 0.4:
        ty = p.type if r.random() < 0.85 else 'obj_WellboreMarkerFrameRepresentation'
        kw['obj_type'] = ty if r.random() < 0.5 else ty[4:]
        tests.append(lambda q: q.type == ty)
    if r.random() < 0.12:
        kw['uuid'] = p.uuid
        u = p.uuid
        if r.random() < 0.5:
            import uuid
            kw['uuid'] = uuid.UUID(u)
        tests.append(lambda q: q.uuid == u)
    if r.random() < 0.5 and p.title.strip():
        mode = r.choice(MODES)
        cs = r.random() < 0.5
        t = p.title.strip()
        x = r.random()
        if 'is' not in mode and x < 0.8:
            i, j = sorted((r.randrange(len(t) + 1), r.randrange(len(t) + 1)))
            t = t[:max(1, j)] if 'start' in mode else t[min(i, len(t) - 1):] if 'end' in mode else t[i:max(j, i + 1)] or t[0]
        t = r.choice([t, t, t.upper(), t.lower(), ' ' + t + ' '])
        if t.strip():
            kw.update(title = t, title_mode = mode, title_case_sensitive = cs)
            tests.append(lambda q: title_match(q.title, t, mode, cs))
    if r.random() < 0.25:
        ks = [k for k in p.meta if p.meta[k] is not None and p.meta[k].strip()]
        if ks:
            md = {k: p.meta[k] for k in r.sample(ks, r.randint(1, min(2, len(ks))))}
            if r.random() < 0.15:
                md['NoSuchTag'] = '1'
            kw['metadata'] = md
            tests.append(lambda q: all(q.meta.get(k) == v for k, v in md.items()))
    if r.random() < 0.25:
        ex = dict(list(p.extra.items())[:r.randint(1, 2)]) if p.extra else {'absent': 'x'}
        if r.random() < 0.15:
            ex[next(iter(ex))] = 'other value'
        kw['extra'] = ex
        tests.append(lambda q: all(k in q.extra and q.extra[k] == v for k, v in ex.items()))
    if r.random() < 0.25:
        rel = ref.relations()[p.uuid]
        rm = r.choice([None, 0, 1, 2])
        w = rel[0] | rel[1] | rel[2] if rm is None else rel[rm]
        import uuid
        kw['related_uuid'] = uuid.UUID(p.uuid) if r.random() < 0.7 else p.uuid
        if rm is not None or r.random() < 0.5:
            kw['related_mode'] = rm
        tests.append(lambda q: q.uuid in w)
    if r.random() < 0.15:
        d = r.choice(['wells', 'wells/', '/wells', 'deep/er', 'well'])
        kw['epc_subdir'] = d
        tests.append(lambda q: q.name.startswith(d.strip('/') + '/'))
    if r.random() < 0.2:
        sub = r.sample(names, r.randint(0, len(names)))
        kw['parts_list'] = sub
        ss = set(sub)
        tests.append(lambda q: q.name in ss)
    return kw, lambda q: all(t(q) for t in tests)


def examine(c, m, ref, r, n, where):
    names = m.parts()
    check(sorted(names) == sorted(p.name for p in ref.objects()), 'parts', lambda: f'{where}: parts() lists {sorted(set(names) ^ set(p.name for p in ref.objects()))[:3]}')
    if not names:
        return
    by = {p.name: p for p in ref.parts.values()}
    for _ in range(n):
        kw, pred = gen_query(r, ref, names)
        want = {p.name for p in ref.objects() if pred(p)}
        what = f'{where}: query {kw}'
        keep = list(kw['parts_list']) if 'parts_list' in kw else None
        got = m.parts(**kw)
        check(len(set(got)) == len(got) and set(got) == want, 'query', lambda: f'{what}: {len(got)} found, {len(want)} expected: {sorted(set(got) ^ want)[:2]}')
        check(keep is None or keep == kw['parts_list'], 'argument-changed', what)
        check([str(u) for u in m.uuids(**kw)] == [by[x].uuid for x in got], 'query-uuids', what)
        check([x.strip() for x in m.titles(**kw)] == [by[x].title.strip() for x in got], 'query-titles', what)
        check([x.attrib['uuid'] for x in m.roots(**kw)] == [by[x].uuid for x in got], 'query-roots', what)
        s = r.choice(['newest', 'oldest', 'title', 'uuid', 'type'])
        srt = m.parts(sort_by = s, **kw)
        check(sorted(srt) == sorted(got), 'sort', lambda: f'{what} sorted by {s}: a different set of parts')
        key = dict(newest = lambda p: p.created, oldest = lambda p: p.created, title = lambda p: p.title.strip(), uuid = lambda p: p.uuid, type = lambda p: p.type)[s]
        ks = [key(by[x]) for x in srt]
        if s == 'type':
            ks = [key(by[x]) for x in srt if '/' not in x]
        in_order = (ks == sorted(ks, reverse = s == 'newest')) if s != 'type' else sum(a != b for a, b in zip(ks, ks[1:])) <= max(0, len(set(ks)) - 1)
        check(in_order, 'sort', lambda: f'{what}: sorted by {s} but order is {ks[:4]}')
        su = [str(u) for u in m.uuids(sort_by = s, **kw)]
        check(su == [by[x].uuid for x in srt], 'sort', lambda: f'{what}: uuids() sorted by {s} disagrees with parts()')
        mh = r.choice(['exception', 'none', 'first', 'newest', 'oldest'])
        for fn, val in ((m.part, lambda x: x), (m.uuid, lambda x: by[x].uuid), (m.title, lambda x: by[x].title.strip()), (m.root, lambda x: by[x].uuid)):
            try:
                g = fn(multiple_handling = mh, **kw)
                g = g.attrib['uuid'] if hasattr(g, 'attrib') else str(g).strip() if g is not None else None
            except ValueError:
                g = ValueError
            if len(got) == 0 or (len(got) > 1 and mh == 'none'):
                ok = g is None
            elif len(got) > 1 and mh == 'exception':
                ok = g is ValueError
            else:
                if mh in ('newest', 'oldest'):
                    e = (max if mh == 'newest' else min)(by[x].created for x in got)
                    cand = [x for x in got if by[x].created == e]
                else:
                    cand = got[:1]
                ok = g in [val(x) for x in cand]
            check(ok, 'single', lambda: f'{what}: {fn.__name__}(multiple_handling = {mh}) gave {g} with {len(got)} matches')
        c.probe('queries')
        c.probe('query-hits', len(got))
        c.state(core.sha(sorted(kw), len(got) if len(got) < 4 else 4, s, mh))
    # whole catalogue facts
    cnt = {}
    for p in ref.parts.values():
        cnt[p.type[4:]] = cnt.get(p.type[4:], 0) + 1
    check(dict(m.parts_count_by_type()) == cnt, 'counts', lambda: f'{where}: parts_count_by_type')
    check(m.parts_count_dict() == cnt, 'counts', lambda: f'{where}: parts_count_dict')
    check(m.number_of_parts() == len(ref.parts), 'counts', f'{where}: number_of_parts')
    check(sorted(m.list_of_parts(only_objects = False)) == sorted(ref.parts), 'counts', f'{where}: list_of_parts')
    check(sorted(m.external_parts_list()) == sorted(p.name for p in ref.exts()), 'counts', f'{where}: external_parts_list')
    t = r.choice(sorted(cnt))
    want = sorted(p.name for p in ref.parts.values() if p.type == 'obj_' + t)
    check(sorted(m.parts_list_of_type(t)) == want and sorted(m.parts_list_of_type('obj_' + t)) == want, 'of-type', f'{where}: parts_list_of_type({t})')
    check(m.parts_count_by_type(t) == [(t, cnt[t])], 'of-type', f'{where}: parts_count_by_type({t})')
    for x in r.sample(names, min(4, len(names))):
        p = by[x]
        import uuid
        U = uuid.UUID(p.uuid)
        ok = (m.type_of_part(x) == p.type and m.type_of_part(x, strip_obj = True) == p.type[4:] and m.type_of_uuid(U) == p.type and m.type_of_uuid(p.uuid, strip_obj = True) == p.type[4:] and
              m.part_for_uuid(U) == x and m.part_for_uuid(p.uuid) == x and str(m.uuid_for_part(x)) == p.uuid and m.uuid_is_present(U) and m.uuid_is_present(p.uuid) and
              m.root_for_uuid(U).attrib['uuid'] == p.uuid and m.root_for_part(x).attrib['uuid'] == p.uuid and (m.title_for_part(x) or '').strip() == p.title.strip() and
              str(m.uuid_for_root(m.root_for_part(x))) == p.uuid and m.source_for_part(x) == p.extra.get('source') and m.tree_for_part(x).getroot().attrib['uuid'] == p.uuid)
        check(ok, 'part-facts', f'{where}: details of part {x}')
        rel = ref.relations()[p.uuid]
        want = sorted(q.name for q in ref.objects() if q.uuid in rel[0] | rel[1] | rel[2] and q.type == 'obj_' + t)
        if t != 'EpcExternalPartReference':
            check(sorted(m.parts_list_related_to_uuid_of_type(U, t)) == want, 'of-type', f'{where}: parts of type {t} related to {x}')
    ghost = uuid.UUID(int = r.getrandbits(128))
    check(not m.uuid_is_present(ghost) and m.part_for_uuid(ghost) is None and m.parts(uuid = ghost) == [] and m.root_for_uuid(ghost) is None and not m.parts(related_uuid = ghost),
          'ghost', f'{where}: a uuid which is not in the model is found')
    ts = [p for p in ref.objects() if p.type == 'obj_TimeSeries']
    if ts:
        g = m.root_for_time_series()
        e = min(p.created for p in ts)
        check(g.attrib['uuid'] in [p.uuid for p in ts if p.created == e], 'time-series', f'{where}: root_for_time_series is not the one created first')


class S(saga.Saga):

    def opened(self, c, w, st, s):
        if s['open'] != 'new':
            examine(c, w.m, refmodel.of_file(w.m.epc_file), random.Random(s['q']), self.n, 'after opening')
            w.m.h5_release()
        self.stamp(c, w, s)

    def stamp(self, c, w, s):
        """Objects are stamped with the time at which they are created, whichever way the clock has moved."""
        from datetime import datetime, timezone
        from ..world import parts_sorted
        have = set(w.m.parts())
        L = shim.lib()
        inner = w.apply

        def apply(op):
            r = random.Random(op[-1])
            if r.random() < 0.3:
                L.simio_clock_jump(r.choice([1, -1]) * r.choice([10**8, 10**9, 10**10, 10**13, 86400 * 400 * 10**9]))
                c.probe('clock-jump')
            t0 = L.simio_clock_now() // 10**9
            done = inner(op)
            t1 = L.simio_clock_now() // 10**9
            new = [p for p in w.m.parts() if p not in have]
            have.update(new)
            if op[0] == 'add':
                for p in refmodel.of_model(w.m).objects():
                    if p.name in new:
                        t = int(datetime.strptime(p.created, '%Y-%m-%dT%H:%M:%SZ').replace(tzinfo = timezone.utc).timestamp())
                        check(t0 <= t <= t1, 'creation-stamp', lambda: f'{p.name} created between {t0} and {t1} is stamped {t}')
            return done

        w.apply = apply

    def edited(self, c, w, st, s):
        examine(c, w.m, refmodel.of_model(w.m), random.Random(s['q'] + 1), self.n, 'in memory')


class P(SaveProp):
    id = 'C08'
    quick_runs = 600
    thorough_runs = 3000
    rule = 'one evaluation is one seeded history of simulated processes with a jumping clock; random queries are put to the model in memory and after every opening and compared with brute force over raw xml; distinct by hash of the event log'
    state_measure = 'distinct (set of filters, number of matches up to 4, sort order, multiple handling) tuples'

    def generate(self, rng, index, tier):
        big = tier != 'quick'
        return dict(name = 'a', n = 30 if big else 14, sessions = saga.gen_sessions(rng, 2, 5 if big else 3, 3, 14 if big else 9, crash = 0.05, fail = 0.03, discard = 0.1, arrays = 0.3,
                                                                                     others = 0.3))

    def shrink_lists(self, plan):
        return [['sessions']] + [['sessions', i, 'edits'] for i in range(len(plan['sessions']))]

    def execute(self, plan, ctx):
        s = S()
        s.n = plan['n']
        st = s.run(ctx, plan['sessions'], plan['name'])
        if st.content is not None:
            s.step(ctx, st, dict(open = 'model', edits = [], end = 'store', at = 0, how = '', err = '', jump = 0, q = 5))


PROP = P()

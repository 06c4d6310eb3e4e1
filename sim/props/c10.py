"""C10: copying between models is complete, faithful, repeatable, leaves everything else alone and survives failed attempts."""
import hashlib
import math
import os
import random
import traceback

from .. import core, oracle, refmodel, shim, world, zoo
from ..core import check
from ..oracle import local
from ..saving import SaveProp, new_model

# kinds which may be consolidated, and the types which resqpy says are
LEX = ['crs', 'boundary_feature', 'frontier_feature', 'geobody_feature', 'geologic_unit_feature', 'wellbore_feature', 'tectonic_boundary_feature', 'genetic_boundary_feature',
       'fluid_boundary_feature', 'organization_feature', 'rock_fluid_unit_feature', 'fault_interpretation', 'horizon_interpretation', 'geobody_boundary_interpretation',
       'geobody_interpretation', 'wellbore_interpretation', 'earth_model_interpretation', 'string_lookup', 'property_kind', 'time_series']
MORE = world.ARRAYS + world.ARRAYS + ['strat_column', 'strat_rank', 'boundary_feature_interpretation', 'regular_grid', 'geologic_time_series', 'md_datum', 'tetra_grid']


def gen_ops(rng, lo, hi, small):
    """Objects drawn from few possible values, so that some in different models are alike or nearly so, among others."""
    ops = []
    for _ in range(rng.randint(lo, hi)):
        x = rng.random()
        if x < 0.5:
            ops.append(['add', rng.choice(LEX if not small else LEX[:3] + LEX[-3:]), [rng.randrange(2), rng.choice([-1, -1, rng.randrange(12)])]])
        elif x < 0.9:
            ops.append(['add', rng.choice(MORE), rng.randrange(1 << 30)])
        else:
            ops.append([rng.choice(['relate', 'relate', 'retitle', 'meta', 'subdir']), rng.randrange(1 << 30)])
    return ops


def canon_mapped(e, mp, real):
    """Canonical form of an object with references to other objects followed through a mapping of uuids."""
    out = []
    in_proxy = local(e.tag) == 'HdfProxy'
    kids = [c for c in e if isinstance(c.tag, str)]
    # the uuid of the hdf5 part and the name given in a reference for the object referred to are not compared
    is_ref = any(local(c.tag) == 'ContentType' for c in kids)
    for c in kids:
        t = local(c.tag)
        if is_ref and t in ('UUID', 'Uuid'):
            u = (c.text or '').strip().lower()
            out.append(('UUID', '' if in_proxy else mp.get(u, u)))
        elif is_ref and t in ('Title', 'VersionString', 'UuidAuthority'):
            continue
        elif real is not None and t == 'RealizationIndex':
            continue
        else:
            out.append(canon_mapped(c, mp, real))
    text = (e.text or '')
    if len(e) or not text.strip():
        text = ''
    return (e.tag, tuple(sorted(oracle._attr(k, v) for k, v in e.attrib.items())), text, tuple(out))


def h5_paths(root):
    return sorted({(c.text or '').strip() for c in root.iter() if isinstance(c.tag, str) and local(c.tag) == 'PathInHdfFile'})


def digests(fn):
    """{path: digest} of all datasets of an hdf5 file."""
    import h5py
    d = {}
    if os.path.exists(fn):
        with h5py.File(fn, 'r') as f:
            def visit(n, o):
                if isinstance(o, h5py.Dataset):
                    a = o[()]
                    d['/' + n] = (str(o.dtype), tuple(o.shape), hashlib.sha256(a.tobytes()).hexdigest()[:16])
            f.visititems(visit)
    return d


def normal(kind, e):
    """What of an object counts when deciding whether two are the same."""
    e = {k: v for k, v in e.items() if k not in ('extra', 'title')} if kind in ('time_series', 'string_lookup') else {k: v for k, v in e.items() if not (k == 'title' and kind == 'crs')}
    if kind == 'crs':
        a = e.pop('rotation') * (math.pi / 180.0 if e.pop('rotation_units') == 'dega' else 1.0)
        e['rotation'] = a
    return e


def alike(ka, a, env_a, kb, b, env_b, exact):
    """Whether two objects of different models say the same, following what they refer to; if exact, in every respect."""
    if ka != kb or a is None or b is None:
        return False
    if not exact:
        a, b = normal(ka, a), normal(kb, b)
    if a.keys() != b.keys():
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, float) and isinstance(y, float) and not exact:
            if abs(x - y) > (1e-3 if ka == 'crs' else 0.51):
                return False
        elif isinstance(x, str) and isinstance(y, str) and oracle.UUID_RE.fullmatch(x) and oracle.UUID_RE.fullmatch(y):
            if x == y:
                continue
            p, q = [[o for o in env.objs if o[1] == u] for env, u in ((env_a, x), (env_b, y))]
            if not p or not q:  # edited since: what it says is not known
                if exact:
                    return False
                continue
            if not alike(p[0][0], p[0][2], env_a, q[0][0], q[0][2], env_b, exact):
                return False
        elif not zoo.same(x, y):
            return False
    return True


FC = {'consolidatable': ['obj_OrganizationFeature', 'obj_GeobodyFeature', 'obj_BoundaryFeature', 'obj_FrontierFeature', 'obj_GeologicUnitFeature', 'obj_FluidBoundaryFeature', 'obj_RockFluidUnitFeature',
                         'obj_TectonicBoundaryFeature', 'obj_GeneticBoundaryFeature', 'obj_WellboreFeature', 'obj_FaultInterpretation', 'obj_EarthModelInterpretation', 'obj_HorizonInterpretation',
                         'obj_GeobodyBoundaryInterpretation', 'obj_GeobodyInterpretation', 'obj_WellboreInterpretation', 'obj_LocalDepth3dCrs', 'obj_LocalTime3dCrs', 'obj_TimeSeries',
                         'obj_StringTableLookup', 'obj_PropertyKind']}


def build(c, name, ops, copy_of = None, env = None):
    """In a simulated process: make (or add to a copy of) a model and store it; returns the env."""
    import resqpy.model as rq
    m = rq.Model(name + '.epc', copy_from = copy_of + '.epc') if copy_of else new_model(name + '.epc')
    w = world.World(m, env)
    for op in ops:
        w.apply(op)
    m.store_epc()
    m.h5_release()
    return w.env


def closure(ref, uuids):
    """All objects which those with the given uuids refer to, directly or indirectly, and themselves."""
    todo, got = list(uuids), set()
    while todo:
        u = todo.pop()
        if u in got or u not in ref.by_uuid:
            continue
        got.add(u)
        todo += ref.by_uuid[u].refs
    return got


def copying(c, plan, envs):
    """In a simulated process: the copying, with disk errors and repeated attempts; reports what went where."""
    import resqpy.model as rq
    dst = rq.Model('dst.epc') if plan['reopen'] or True else None
    models = {n: rq.Model(n + '.epc') for n in envs}
    refs = {n: refmodel.of_file(n + '.epc') for n in envs}
    before = {n: oracle.memory_content(m) for n, m in models.items()}
    asked = []  # (source, uuid, consolidate, realization)
    mp = {n: {} for n in envs}
    mp_at = {}  # for each object copied: what became of those it refers to
    fresh = {}  # uuid in dst: (source, uuid in source, realization)
    dst0 = {str(u) for u in dst.uuids()}
    for op in plan['copies']:
        r = random.Random(op['q'])
        n = op['src'] if op['src'] in models else 'src'
        m, ref = models[n], refs[n]
        objs = sorted(p.uuid for p in ref.objects())
        if not objs:
            continue
        have = {str(u) for u in dst.uuids()}
        real = op['real'] if op['how'] != 'part' else None
        if op['how'] == 'all':
            us = objs
            act = lambda: dst.copy_all_parts_from_other_model(m, realization = real, consolidate = op['cons'])
        else:
            us = [objs[r.randrange(len(objs))] for _ in range(op['n'])]
            if op['how'] == 'uuid':
                def act():
                    return [dst.copy_uuid_from_other_model(m, zoo.U(u), realization = real, consolidate = op['cons']) for u in us]
            else:
                def act():
                    return [dst.copy_part_from_other_model(m, m.part_for_uuid(u), consolidate = op['cons']) for u in us]
        if op['faults']:
            shim.arm(op['faults'])
        res, tries, ok = None, 0, False
        while True:
            tries += 1
            try:
                res = act()
                ok = True
                break
            except Exception as e:  # noqa
                hit = sum(shim.fired().values())
                tb = '' if hit else traceback.format_exc()[-900:]
                shim.disarm()
                check(hit and tries == 1, 'copy-failed', lambda: f'copying ({op["how"]}) from {n} failed though nothing was wrong: {type(e).__name__} {e} {tb}' if not hit else
                      f'copying could not be repeated once the cause of its failure had gone: {type(e).__name__} {e}')
                c.probe('copy-failed-and-repeated')
                half(c, dst, e)
                if op['giveup']:
                    break
        shim.disarm()
        cm = {} if dst.consolidation is None else {str_of(a): str_of(b) for a, b in dst.consolidation.map.items()}
        now = {str(u) for u in dst.uuids()}
        if ok:
            for i, u in enumerate(us):
                # with consolidation off what is asked for is itself copied, unless already there
                to = u if u in now else cm.get(u)
                check(to is not None and to in now, 'copy-incomplete', lambda: f'{ref.by_uuid[u].type} {u} copied from {n} ({op["how"]}) is not in the target')
                if op['how'] == 'uuid':
                    check(str(res[i]) == to, 'copy-result', f'copy_uuid returned {res[i]} for {u}, which is {to} in the target')
                elif op['how'] == 'part':
                    check(res[i] == dst.part_for_uuid(to), 'copy-result', f'copy_part returned {res[i]}, not {dst.part_for_uuid(to)}')
                asked.append((n, u, op['cons']))
        for u in sorted(now - have):
            check(u in ref.by_uuid, 'copy-extra', f'part with uuid {u} not of the source has appeared in the target: {dst.type_of_uuid(u)}') if 'ExternalPart' not in dst.type_of_uuid(u) else None
            if u in ref.by_uuid:
                fresh[u] = (n, u, real)
                mp_at[u] = {x: x if x in now else cm.get(x) for x in ref.by_uuid[u].refs}
        for u in objs:
            if u in now:
                mp[n].setdefault(u, u)
            elif u in cm:
                mp[n].setdefault(u, cm[u])
        c.event(op['how'], op['cons'], tries, len(now - have))
        c.state(f'{op["how"]}{op["cons"]}{min(len(now - have), 9)}{tries}')
        if op['release']:
            dst.h5_release()
    for n, m in models.items():
        check(oracle.memory_content(m) == before[n], 'source-changed', f'copying changed the model copied from ({n})')
        check(not m.modified, 'source-changed', f'copying marked the model copied from as modified ({n})')
        m.h5_release()
    dst.store_epc()
    dst.h5_release()
    return dict(asked = asked, map = mp, fresh = fresh, map_at = mp_at)


def str_of(i):
    import resqpy.olio.uuid as bu
    return str(bu.uuid_from_int(i))


def half(c, dst, e):
    """After a failed copy the target has no part whose arrays are missing, no dangling references."""
    roots = {}
    ref = refmodel.of_model(dst)
    dst.h5_release()
    try:
        fn = dst.h5_file_name(file_must_exist = False)
    except Exception:  # noqa
        fn = None
    have = digests(fn) if fn else {}
    for p in ref.objects():
        for x in h5_paths(p.root):
            check(x in have, 'half-copied', lambda: f'after a failed copy ({type(e).__name__} {e}) the target has a {p.type} without its array {x}')
        for u in p.refs:
            check(u in ref.by_uuid, 'half-copied', lambda: f'after a failed copy ({type(e).__name__} {e}) the target has a {p.type} which refers to an object not there')


def verify(c, plan, envs, denv, rep, dst_before):
    """In a fresh simulated process: the stored target against the sources."""
    import resqpy.model as rq
    roots = oracle.zip_roots('dst.epc')
    f = oracle.structure_fault(roots)
    check(f is None, 'package-structure', f)
    refd = refmodel.Ref(roots)
    f = refd.relationship_fault()
    check(f is None, 'relationships', f)
    d5 = digests('dst.h5')
    srefs = {n: refmodel.of_file(n + '.epc') for n in envs}
    s5 = {n: digests(n + '.h5') for n in envs}
    # what was there stays as it was
    for u, dg in dst_before['parts'].items():
        check(u in refd.by_uuid, 'target-lost', f'object {u} of the target was lost by copying into it')
        check(oracle.digest(refd.by_uuid[u].root) == dg, 'target-changed', lambda: f'object {u} ({refd.by_uuid[u].type}) already in the target was changed by copying into it')
    for p, dg in dst_before['h5'].items():
        check(d5.get(p) == dg, 'target-changed', f'array {p} already in the target was changed by copying into it')
    # what was copied is complete and says the same
    for u, (n, su, real) in rep['fresh'].items():
        sp, tp = srefs[n].by_uuid[su], refd.by_uuid.get(u)
        check(tp is not None, 'copy-incomplete', f'{sp.type} {u} copied but not in the stored target')
        a = canon_mapped(sp.root, rep['map_at'][u], real)
        b = canon_mapped(tp.root, {}, real)
        check(a == b, 'copy-differs', lambda: f'{sp.type} {u} copied from {n} differs from the original: {first_difference(a, b)}')
        check(tp.type == sp.type, 'copy-differs', f'type of {u}')
        for x in sp.refs:
            t = rep['map_at'][u].get(x)
            check(t is not None and t in refd.by_uuid, 'copy-incomplete', lambda: f'{sp.type} {u} copied from {n} refers to a {srefs[n].by_uuid[x].type if x in srefs[n].by_uuid else "?"} which was not')
        for x in h5_paths(sp.root):
            check(d5.get(x) == s5[n].get(x), 'copy-arrays', lambda: f'array {x} of {sp.type} copied from {n}: {s5[n].get(x)} became {d5.get(x)}')
        if real is not None and sp.type.endswith('Property'):
            ri = [c2.text for c2 in tp.root.iter() if isinstance(c2.tag, str) and local(c2.tag) == 'RealizationIndex']
            check(ri == [str(real)], 'realization', f'realization of copied property is {ri} not {real}')
        c.probe('parts-copied')
    # what was not copied because something equivalent was there is equivalent; nothing is there twice
    for n in envs:
        for su, tu in rep['map'][n].items():
            if su == tu:
                continue
            so = [o for o in envs[n].objs if o[1] == su]
            to = [(o, denv) for o in denv.objs if o[1] == tu] + [(o, envs[k]) for k in envs for o in envs[k].objs if o[1] == tu]
            check(tu in refd.by_uuid, 'consolidation', f'{su} of {n} was taken to be the same as {tu}, which is not in the target')
            check(srefs[n].by_uuid[su].type == refd.by_uuid[tu].type, 'consolidation', f'{su} of type {srefs[n].by_uuid[su].type} taken to be the same as a {refd.by_uuid[tu].type}')
            c.probe('consolidated')
            if so and to and so[0][2] is not None and to[0][0][2] is not None:
                o, te = to[0]
                check(alike(so[0][0], so[0][2], envs[n], o[0], o[2], te, False), 'consolidation', lambda: f'different objects taken to be the same: {zoo.short(so[0])} and {zoo.short(o)}')
                c.probe('consolidations-judged')
    for n, u, cons in rep['asked']:
        t = rep['map'][n].get(u)
        if not cons or t != u or u in dst_before['parts'] or u not in rep['fresh'] or rep['fresh'][u][0] != n or not rep['only_cons']:
            continue
        so = [o for o in envs[n].objs if o[1] == u]
        if srefs[n].by_uuid[u].type in FC['consolidatable'] and so and so[0][2] is not None and so[0][0] in LEX:
            for o in denv.objs:
                if o[1] in dst_before['parts'] and o[2] is not None and refd.by_uuid[o[1]].type == srefs[n].by_uuid[u].type:
                    check(not alike(so[0][0], so[0][2], envs[n], o[0], o[2], denv, True), 'not-consolidated', lambda: f'identical object is in the target already: {zoo.short(so[0])}')
    # relationships among what is there now, as in the source
    rd = refd.relations()
    for n in envs:
        rs = srefs[n].relations()
        mp = rep['map'][n]
        for u, (a, b, s) in rs.items():
            if u not in rep['fresh'] or rep['fresh'][u][0] != n:
                continue
            for v in a | b | s:
                if v not in rep['fresh'] or rep['fresh'][v][0] != n:
                    continue
                check(v in rd[u][0] | rd[u][1] | rd[u][2], 'relationship-lost', lambda: f'{srefs[n].by_uuid[u].type} and {srefs[n].by_uuid[v].type} are related in {n} but their copies are not')
                c.probe('relationships-carried')
    # resqpy reads the copies as it reads the originals
    m = rq.Model('dst.epc')
    for n in envs:
        for k, u, e in envs[n].objs:
            if u in rep['fresh'] and rep['fresh'][u] == (n, u, None) and e is not None:
                if any(u in us and x not in rep['fresh'] for x, us in envs[n].aux.items()):
                    continue  # a data frame does not refer to its lookup tables nor a grid to its active cell mask: they have to be asked for
                if any(u in us and rep['fresh'][x][2] is not None for x, us in envs[n].aux.items()):
                    continue  # given realization numbers in the copying
                if k == 'dataframe' and len({x['cons'] for x in plan['copies']}) > 1:
                    continue  # related to two equivalent lookup tables if each is copied in its own way
                got = zoo.READ[k](m, zoo.U(u), e)
                d = zoo.diff({x: mapped(v, rep['map_at'][u]) for x, v in e.items()}, got)
                check(d is None, 'reads-differently', lambda: f'{k} {u} copied from {n}: {d}')
                c.probe('objects-read-from-copy')
    for k, u, e in denv.objs:
        if e is not None:
            d = zoo.diff(e, zoo.READ[k](m, zoo.U(u), e))
            check(d is None, 'target-changed', lambda: f'{k} {u} which was in the target: {d}')
    return True


def mapped(v, mp):
    if isinstance(v, str):
        return mp.get(v, v)
    if isinstance(v, (list, tuple)):
        return [mapped(x, mp) for x in v]
    if isinstance(v, dict):
        return {k: mapped(x, mp) for k, x in v.items()}
    return v


def first_difference(a, b, path = ''):
    if a[0] == 'UUID' or b[0] == 'UUID' or len(a) < 4 or len(b) < 4:
        return f'{path}: {a} / {b}'
    here = path + '/' + local(a[0])
    if a[:3] != b[:3]:
        return f'{here}: {a[:3]} / {b[:3]}'
    if len(a[3]) != len(b[3]):
        return f'{here}: {[local(x[0]) for x in a[3]]} / {[local(x[0]) for x in b[3]]}'
    for x, y in zip(a[3], b[3]):
        if x != y:
            return first_difference(x, y, here)
    return '?'


class P(SaveProp):
    id = 'C10'
    quick_runs = 700
    thorough_runs = 4000
    rule = 'one evaluation is one seeded set of source and target models, a sequence of copies between them, some meeting disk errors and being repeated, and a comparison of the stored target with the sources in a fresh process; distinct by hash of the event log'
    state_measure = 'distinct (way of copying, consolidation, number of parts which arrived, attempts) combinations'
    assumptions = ['errors are injected in opening, locking and reading files, not in writing the target hdf5 file (nothing is claimed of an hdf5 file in which a write has failed)']

    def generate(self, rng, index, tier):
        small = rng.random() < 0.3
        hi = 9 if tier == 'quick' else 16
        copies = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            faults = []
            if rng.random() < 0.45:
                faults = [dict(cls = rng.choice([['flock'], ['open_r', 'open_w'], ['read'], ['flock', 'open_r', 'open_w', 'read']]), nth = int(rng.random()**2 * rng.choice([6, 30, 120])), action = 'err',
                               arg = rng.choice(['EAGAIN', 'EIO', 'EMFILE', 'EACCES']), repeat = rng.choice([1, 1, 3, -1]), suffix = '.h5')]
                if 'flock' in faults[0]['cls'] and len(faults[0]['cls']) == 1:
                    faults[0]['arg'] = 'EAGAIN'
            copies.append(dict(how = rng.choice(['uuid', 'uuid', 'uuid', 'part', 'all']), src = rng.choice(['src', 'src', 'src', 'src2']), n = rng.randint(1, 4), cons = rng.random() < 0.7,
                               real = rng.choice([None, None, None, rng.randrange(4)]), q = rng.randrange(1 << 30), release = rng.random() < 0.5, faults = faults, giveup = rng.random() < 0.1))
        src, dst = gen_ops(rng, 2, hi, small), gen_ops(rng, 0, hi, small)
        for op in src:
            if isinstance(op[-1], list) and rng.random() < 0.4:  # its like or nearly so in the target
                dst.insert(rng.randint(0, len(dst)), ['add', op[1], [op[2][0], rng.choice([-1, 0, rng.randrange(12)])]])
        return dict(src = src, dst = dst, prefix = rng.random() < 0.4, src2 = None if rng.random() < 0.5 else gen_ops(rng, 1, 5, small),
                    src2_from = rng.choice([None, 'src', 'dst']), copies = copies, reopen = True)

    def shrink_lists(self, plan):
        return [['copies'], ['src'], ['dst']] + ([['src2']] if plan['src2'] else []) + [['copies', i, 'faults'] for i in range(len(plan['copies']))]

    def simplify(self, plan):
        import json
        if plan['src2'] is not None:
            q = json.loads(json.dumps(plan))
            q['src2'] = None
            yield q
        for i, c in enumerate(plan['copies']):
            for k, v in (('n', 1), ('real', None), ('how', 'uuid')):
                if c[k] != v:
                    q = json.loads(json.dumps(plan))
                    q['copies'][i][k] = v
                    yield q

    def execute(self, plan, ctx):
        envs = {'src': ctx.run_ok(build, 'src', plan['src'])}
        denv = ctx.run_ok(build, 'dst', (plan['src'] if plan['prefix'] else []) + plan['dst'])
        if plan['src2'] is not None:
            fr = plan['src2_from']
            envs['src2'] = ctx.run_ok(build, 'src2', plan['src2'], fr, {'src': envs['src'], 'dst': denv, None: None}[fr])
        files = {n: hashlib.sha256(open(ctx.path(n), 'rb').read()).hexdigest() for s in envs for n in (s + '.epc', s + '.h5') if os.path.exists(ctx.path(n))}
        ref0 = refmodel.Ref(oracle.zip_roots(ctx.path('dst.epc')))
        before = dict(parts = {p.uuid: oracle.digest(p.root) for p in ref0.objects()}, h5 = core.settle(ctx.process(lambda c: digests('dst.h5'))))
        inc = ctx.process(copying, plan, envs)
        if inc.status == 'died' and any(c['faults'] for c in plan['copies']):
            ctx.probe('hdf5-library-died')
            return
        rep = core.settle(inc)
        rep['only_cons'] = all(c['cons'] for c in plan['copies'])
        for n, h in files.items():
            check(hashlib.sha256(open(ctx.path(n), 'rb').read()).hexdigest() == h, 'source-changed', f'copying changed the file {n}')
        ctx.run_ok(verify, plan, envs, denv, rep, before)


PROP = P()

"""C17: functions which derive new objects extend a dataset completely and rightly, or leave it as it was."""
import copy
import hashlib
import os
import random
from collections import Counter

import numpy as np

from .. import core, derive, oracle, refmodel, shim, zoo
from ..core import check
from ..oracle import local
from ..saving import SaveProp
from .c10 import digests, h5_paths

READS = ['open_r', 'open_w', 'read', 'flock']
EPCW = ['open_w', 'write', 'close', 'rename', 'trunc']


# ------------------------------------------------------------------ what a stored dataset says, whatever uuids were drawn

def says(e, tok, h5, top = True):
    out = []
    kids = [c for c in e if isinstance(c.tag, str)]
    proxy = local(e.tag) == 'HdfProxy'
    for c in kids:
        t = local(c.tag)
        if t in ('Creation', 'LastUpdate', 'Editor'):
            continue
        if proxy and t in ('UUID', 'Title'):
            continue
        if t == 'PathInHdfFile':
            out.append((t, h5.get((c.text or '').strip())))
            continue
        out.append(says(c, tok, h5, False))
    text = '' if len(kids) or not (e.text or '').strip() else oracle.UUID_RE.sub(lambda x: str(tok.get(x.group(0).lower(), 'NEW')), e.text)
    at = tuple(sorted((k, oracle.UUID_RE.sub(lambda x: str(tok.get(x.group(0).lower(), 'NEW')), v)) for k, v in (oracle._attr(*a) for a in e.attrib.items())))
    return (e.tag, at, text, tuple(out))


def parents(ref):
    """Grids which others have been cut from: only a grid itself is copied to a new file."""
    return {u.lower() for p in ref.objects() for e in p.root.iter() if isinstance(e.tag, str) and local(e.tag) == 'ParentWindow'
            for x in e.iter() if isinstance(x.tag, str) and local(x.tag) in ('UUID', 'Uuid') for u in [x.text or '']}


def snapshot(c, epc, known):
    """Multiset of what the objects of a stored dataset say, known objects by their uuid and others by type and title."""
    roots = oracle.zip_roots(epc)
    f = oracle.structure_fault(roots)
    check(f is None, 'package-structure', lambda: f'{epc}: {f}')
    ref = refmodel.Ref(roots)
    f = ref.relationship_fault(parents(ref))
    check(f is None, 'relationships', lambda: f'{epc}: {f}')
    h5 = digests(epc[:-4] + '.h5')
    tok = {}
    for p in ref.objects():
        for x in h5_paths(p.root):
            check(x in h5, 'array-missing', lambda: f'{epc}: {p.type} "{p.title}" without its array {x}')
        tok[p.uuid] = p.uuid if p.uuid in known else f'<{p.type} {oracle.UUID_RE.sub("U", p.title)}>'
    rel = ref.relations()
    out = Counter()
    for p in ref.objects():
        r = tuple(tuple(sorted(str(tok.get(u, 'NONE')) for u in s)) for s in rel[p.uuid])
        out[core.sha(repr(says(p.root, tok, h5)), repr(r)), tok[p.uuid]] += 1
    return out


def compare(a, b, cls, what):
    """Whether two snapshots agree."""
    if a == b:
        return
    x, y = a - b, b - a
    raise core.Violation(cls, f'{what}: only in an undisturbed run: {sorted(t for _, t in x)[:3]}, only in the disturbed one: {sorted(t for _, t in y)[:3]}')


def state_of(c, epc):
    ref = refmodel.Ref(oracle.zip_roots(epc))
    return dict(parts = {p.uuid: oracle.digest(p.root) for p in ref.objects()}, h5 = digests(epc[:-4] + '.h5'), content = oracle.zip_content(epc))


def sha_file(p):
    return hashlib.sha256(open(p, 'rb').read()).hexdigest() if os.path.exists(p) else None


# ------------------------------------------------------------------ processes

def act(c, s, epc, new, watch = None, faults = ()):
    """The derivation, as a user's process; returns what the user then knows."""
    import resqpy.model as rq
    h = shim.watch(*watch) if watch else None
    if faults:
        shim.arm(faults)
    m = rq.Model(epc)
    t = derive.OPS[s['op']](m, random.Random(s['q']), epc, new)
    n = shim.seen(h) if watch else 0
    shim.disarm()
    c.event(s['op'], t is not None, n)
    return t, n


def intact(c, epc, st, env, what, grow):
    """The dataset has everything it had, unchanged."""
    roots = oracle.zip_roots(epc)
    f = oracle.structure_fault(roots)
    check(f is None, 'package-structure', lambda: f'{what}: {f}')
    ref = refmodel.Ref(roots)
    f = ref.relationship_fault(parents(ref))
    check(f is None, 'relationships', lambda: f'{what}: {f}')
    h5 = digests(epc[:-4] + '.h5')
    for u, d in st['parts'].items():
        check(u in ref.by_uuid, 'object-lost', f'{what}: object {u} lost')
        check(oracle.digest(ref.by_uuid[u].root) == d, 'object-changed', lambda: f'{what}: {ref.by_uuid[u].type} {u} changed')
    for p, d in st['h5'].items():
        check(h5.get(p) == d, 'array-changed', f'{what}: array {p} changed')
    for p in ref.objects():
        for x in h5_paths(p.root):
            check(x in h5, 'array-missing', lambda: f'{what}: {p.type} "{p.title}" without its array {x}')
    same = oracle.zip_content(epc) == st['content']
    check(grow or same, 'half-done', lambda: f'{what}: the dataset has been changed: ' + oracle.diff_content(st['content'], oracle.zip_content(epc)))
    import resqpy.model as rq
    m = rq.Model(epc)
    for k, u, e in env.objs:
        if e is not None:
            d = zoo.diff(e, zoo.READ[k](m, zoo.U(u), e))
            check(d is None, 'object-changed', lambda: f'{what}: {k} {u}: {d}')
    c.probe('objects-found-intact', len(st['parts']))
    return same


def expected(c, s, t, epc):
    """The derived objects, read by a fresh process, are what was asked for."""
    import resqpy.model as rq
    m = rq.Model(t.target)
    sm = m if t.target == epc else rq.Model(epc)
    derive.verify(c, s['op'], t, sm, m, check)


class P(SaveProp):
    id = 'C17'
    quick_runs = 520
    thorough_runs = 4000
    rule = ('one evaluation is one seeded dataset of grids with properties, on which one to three derivations are made, each in a process of its own, most meeting disk errors or death; what is stored is '
            'compared with an undisturbed run and with values computed independently; distinct by hash of the event log')
    state_measure = 'distinct (operation, in place or new file, kind of fault, outcome) combinations'
    assumptions = ['errors are injected in reading and locking files and in writing the epc file, and death in writing the epc file; nothing is claimed of an hdf5 file in which a write has failed',
                   'functions which store in several steps (zone property with local kind, faults with connection sets, box around a well) may stop between steps']

    def generate(self, rng, index, tier):
        names = sorted(derive.OPS)
        steps = []
        for i in range(rng.choice([1, 1, 2, 3])):
            x = rng.random()
            fault = None
            if x < 0.4:
                fault = dict(kind = 'read', cls = rng.choice([['flock'], ['open_r'], ['open_r', 'open_w'], ['read'], READS]), nth = rng.randrange(1 << 20), err = rng.choice(['EIO', 'EACCES', 'EMFILE']),
                             repeat = rng.choice([1, 1, 2, -1]), suffix = rng.choice(['.h5', '.h5', '.epc', '']))
                if fault['cls'] == ['flock']:
                    fault.update(err = 'EAGAIN', suffix = '.h5')
            elif x < 0.65:
                fault = dict(kind = 'write', cls = EPCW, nth = rng.randrange(1 << 20), err = rng.choice(['EIO', 'ENOSPC', 'EACCES']), repeat = rng.choice([1, 1, -1]), suffix = '.tmp')
            elif x < 0.85:
                fault = dict(kind = 'crash', cls = EPCW, nth = rng.randrange(1 << 20), how = rng.choice(['crash_before', 'crash_after', 'torn_crash']), suffix = '.tmp')
            steps.append(dict(op = names[(index + i * 7) % len(names)] if i == 0 else rng.choice(names), q = rng.randrange(1 << 30), new = rng.random() < 0.45, on = rng.random() < 0.8, fault = fault))
        return dict(twin = any(s['op'] == 'gather' and s['new'] for s in steps) and rng.random() < 0.8, spec = derive.gen_spec(rng, tier != 'quick'), case = None if rng.random() < 0.7 else derive.gen_spec(rng, False), steps = steps)

    def shrink_lists(self, plan):
        return [['steps'], ['spec', 'props'], ['spec', 'others']]

    def simplify(self, plan):
        for i, s in enumerate(plan['steps']):
            if s['fault']:
                p = copy.deepcopy(plan)
                p['steps'][i]['fault'] = None
                yield p
        if plan['case']:
            yield dict(plan, case = None)
        for k, v in (('two', False), ('fault', False), ('wedge', False), ('inactive', False), ('regular', 0)):
            if plan['spec'][k]:
                p = copy.deepcopy(plan)
                p['spec'][k] = v
                yield p
        for k in range(3):
            if plan['spec']['ext'][k] > 1:
                p = copy.deepcopy(plan)
                p['spec']['ext'][k] -= 1
                yield p

    def execute(self, plan, ctx):
        env = ctx.run_ok(derive.build, 'src', plan['spec'])
        if plan['case']:
            ctx.run_ok(derive.build, 'case', plan['case'])
        if plan.get('twin'):
            ctx.run_ok(derive.build, 'twin', dict(plan['spec'], salt = 7))
        epc = 'src.epc'
        for i, s in enumerate(plan['steps']):
            new = f'new{i}.epc' if s['new'] else None
            got = self.step(ctx, plan, i, s, epc, new, env if epc == 'src.epc' else zoo.Env())
            if got and got != epc and s['on']:
                epc = got

    def step(self, ctx, plan, i, s, epc, new, env):
        what = f'{s["op"]}{" to new file" if new else ""}'
        st = ctx.run_ok(state_of, epc)
        known = set(st['parts'])
        f = s['fault']
        w = ctx if f is None else ctx.branch(f'dry{i}')
        files = {n: sha_file(ctx.path(n)) for n in (epc, epc[:-4] + '.h5', 'case.epc', 'case.h5', 'twin.epc', 'twin.h5')} if new else {}
        t, n = core.settle(w.process(act, s, epc, new, (f['cls'], f['suffix']) if f else None))
        if t is None:
            if w is not ctx:
                ctx.merge(w)
            return None
        dry = core.settle(w.process(snapshot, t.target, known))
        core.settle(w.process(intact, epc, st, env, what, not new))
        core.settle(w.process(expected, s, t, epc))
        for k, v in files.items():
            check(sha_file(w.path(k)) == v, 'source-changed', f'{what}: changed the file {k}')
        ctx.probe('derivations')
        if w is not ctx:
            ctx.merge(w)
        if f is None or n == 0:
            ctx.state(f'{s["op"]}{bool(new)}none')
            if f is not None:
                core.settle(ctx.process(act, s, epc, new))
            return t.target
        if f['kind'] == 'crash':
            faults = [dict(cls = f['cls'], nth = f['nth'] % n, action = f['how'], arg = 500, suffix = f['suffix'])]
        else:
            faults = [dict(cls = f['cls'], nth = f['nth'] % n, action = 'err', arg = f['err'], repeat = f['repeat'], suffix = f['suffix'])]
        inc = ctx.process(act, s, epc, new, None, faults)
        ctx.event(s['op'], inc.status)
        ctx.state(f'{s["op"]}{bool(new)}{f["kind"]}{inc.status}')
        ctx.probe('derivation-' + inc.status)
        if inc.status == 'died':
            ctx.probe('hdf5-library-died')
            return False
        for k, v in files.items():
            check(sha_file(ctx.path(k)) == v, 'source-changed', f'{what}: changed the file {k}, having {inc.status}')
        why = f'{what} ({f["kind"]} fault, {inc.status}{" " + str(inc.exc[:2]) if inc.exc else ""})'
        if inc.status in ('ok', 'violation'):
            settled = core.settle(inc)
            if settled[0] is None:
                return None
            compare(dry, core.settle(ctx.process(snapshot, t.target, known)), 'silently-different', why)
            core.settle(ctx.process(intact, epc, st, env, why, not new))
            core.settle(ctx.process(expected, s, settled[0], epc))
            return t.target
        twice = getattr(t, 'twice', False)
        if new:
            core.settle(ctx.process(intact, epc, st, env, why, False))
        else:
            now = core.settle(ctx.process(snapshot, epc, known))
            if now == dry:
                core.settle(ctx.process(intact, epc, st, env, why, True))
                return epc
            same = core.settle(ctx.process(intact, epc, st, env, why, twice))
            if not same:
                ctx.probe('stopped-between-steps')
                return epc
        # once the cause of the failure has gone it can be done
        t2, _ = core.settle(ctx.process(act, s, epc, new))
        check(t2 is not None, 'not-repeatable', why)
        compare(dry, core.settle(ctx.process(snapshot, t2.target, known)), 'not-repeatable', why + ', done again')
        core.settle(ctx.process(intact, epc, st, env, why + ', done again', not new))
        core.settle(ctx.process(expected, s, t2, epc))
        return t2.target


PROP = P()

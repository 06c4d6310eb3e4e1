"""C16: interchange files and their binary copies give what was last written, or an error."""
import copy
import os
import random

import numpy as np

from .. import core, inter, shim
from ..core import check
from ..inter import FMT
from ..saving import SaveProp

IN = '*/tgt/'
WRITES = ['open_w', 'write', 'close', 'trunc', 'rename']
READS = ['open_r', 'read']


def opened():
    shim.lib().simio_stdio(1)
    os.makedirs('tgt', exist_ok = True)


def clear(spec):
    """There is no older text beside binary data exported alone."""
    if spec.get('only') and spec.get('bin'):
        for d, _, files in os.walk('tgt'):
            for n in files:
                os.remove(os.path.join(d, n))


def export(c, name, spec, watch = None, faults = ()):
    opened()
    clear(spec)
    h = shim.watch(watch, IN) if watch else None
    shim.arm(faults)
    FMT[name].export(spec, 'tgt/data')
    n = shim.seen(h) if watch else 0
    shim.disarm()
    c.event('export', name, n)
    return n


def load(c, name, spec, how, watch = None, faults = ()):
    """What the importer gives, or None if it says that it cannot."""
    opened()
    h = shim.watch(watch, IN) if watch else None
    shim.arm(faults)
    r = FMT[name].load(spec, 'tgt/data', how)
    n = shim.seen(h) if watch else 0
    shim.disarm()
    none = FMT[name].failed(r)
    c.event('load', name, none, n)
    return None if none else plain(r), n


def plain(r):
    if isinstance(r, dict):
        return {k: plain(v) for k, v in r.items()}
    if isinstance(r, (list, tuple)):
        return [plain(v) for v in r]
    return None if r is None else r if isinstance(r, str) else np.array(r)


def cut(c, path, part):
    """A file whose writer stopped early, between two items of data; True if any data have gone."""
    opened()
    s = open(path).read()
    w = s.rstrip()
    at = int(len(w) * part / 1000)
    while at > 0 and not w[at - 1].isspace():
        at -= 1
    s = w[:at]
    with open(path, 'w') as f:
        f.write(s)
    c.event('cut', at, len(w))
    return at < len(w)


def torn(a, b, tol):
    """True if the text can have ended in the last of its numbers, which no reader can tell."""
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.shape != b.shape or a.size < 2:
        return isinstance(a, np.ndarray) and a.size < 2
    return np.count_nonzero(~(np.abs(a.astype(float) - b.astype(float)) <= tol * 1.001 + 1.0e-9 * np.abs(b)) & ~(np.isnan(a.astype(float)) & np.isnan(b.astype(float)))) <= 1


def rewriting(c, name, spec, faults = ()):
    opened()
    clear(spec)
    shim.arm(faults)
    FMT[name].export(spec, 'tgt/data')
    shim.disarm()


def loading(c, name, spec, how):
    opened()
    FMT[name].load(spec, 'tgt/data', how)


class P(SaveProp):
    id = 'C16'
    quick_runs = 1300
    thorough_runs = 14000
    rule = ('one evaluation is one seeded history of exporting, importing and replacing files of one interchange format, each in a process of its own, with disk errors, full disks, short reads, '
            'interrupted writers and deaths, and importers running beside writers; everything imported is compared with the values last exported; distinct by hash of the event log')
    state_measure = 'distinct (format, kind of step, kind of fault, outcome) combinations'
    assumptions = ['a text format without a count or extent does not tell a file cut short from a whole one: of those nothing is claimed while an export has failed and has not been done again',
                   'file times have the granularity of a kernel tick (4 ms), and a version of a file is not replaced within a tick of being written',
                   'a reader beside a writer of the same file may see a part of it: what is claimed is that later readers do not']

    def generate(self, rng, index, tier):
        names = sorted(FMT)
        bag = [n for n in names for _ in range(FMT[n].weight)]
        name = names[index % len(names)] if index % 3 == 0 else rng.choice(bag)
        f = FMT[name]
        steps = []
        spec = f.gen(rng)
        steps.append(dict(do = 'export', spec = spec, fault = self.write_fault(rng, 0.25 if f.own else 0.0)))
        for _ in range(rng.randint(2, 6)):
            x = rng.random()
            if x < 0.3:
                s2 = f.gen(rng)
                if rng.random() < 0.6:
                    s2 = dict(spec, q = rng.randrange(1 << 30))
                spec = s2
                steps.append(dict(do = 'export', spec = spec, fault = self.write_fault(rng, 0.6 if f.own else 0.0)))
            elif x < 0.4 and f.detects and os.path.basename(name) not in ('props', 'nexus'):
                steps.append(dict(do = 'cut', part = rng.choice([0, 990, 999, rng.randrange(1000)]), how = [f.how(rng, spec) for _ in range(2)]))
            elif x < 0.52 and f.caches:
                s2 = dict(spec, q = rng.randrange(1 << 30))
                steps.append(dict(do = 'race', spec = s2, how = f.how(rng, spec), hows = [f.how(rng, s2) for _ in range(2)],
                                  sched = [[rng.choice([0, 1, 2, 3, 5, 9]), rng.randrange(4)] for _ in range(rng.randint(1, 8))], slow = rng.choice([0, 0, 1, 3])))
                spec = s2
            else:
                steps.append(dict(do = 'load', how = f.how(rng, spec), fault = self.load_fault(rng, f)))
        return dict(fmt = name, steps = steps)

    def write_fault(self, rng, p):
        if rng.random() >= p:
            return None
        x = rng.random()
        if x < 0.35:
            return dict(kind = 'err', cls = rng.choice([WRITES, ['write'], ['write'], ['close'], ['open_w']]), nth = rng.randrange(1 << 20), err = rng.choice(['EIO', 'ENOSPC', 'EDQUOT', 'EACCES']),
                        repeat = rng.choice([1, 1, 2, -1]))
        if x < 0.55:
            return dict(kind = 'quota', part = rng.random())
        if x < 0.65:
            return dict(kind = 'short', cls = ['write'], nth = rng.randrange(1 << 20), arg = rng.randrange(1000), repeat = rng.choice([1, -1]))
        return dict(kind = 'crash', cls = WRITES, nth = rng.randrange(1 << 20), how = rng.choice(['crash_before', 'crash_after', 'torn_crash', 'torn_crash']), arg = rng.randrange(1000))

    def load_fault(self, rng, f):
        x = rng.random()
        if x < 0.35:
            return None
        if x < 0.6:
            return dict(kind = 'err', cls = rng.choice([READS, ['read'], ['read'], ['open_r']]), nth = rng.randrange(1 << 20), err = rng.choice(['EIO', 'EACCES', 'EMFILE']), repeat = rng.choice([1, 1, 2, -1]))
        if x < 0.7:
            return dict(kind = 'short', cls = ['read'], nth = rng.randrange(1 << 20), arg = rng.randrange(1000), repeat = rng.choice([1, 3, -1]))
        if not f.caches:
            return None
        return self.write_fault(rng, 1.0)

    def shrink_lists(self, plan):
        return [['steps']]

    def simplify(self, plan):
        for i, s in enumerate(plan['steps']):
            if s.get('fault'):
                p = copy.deepcopy(plan)
                p['steps'][i]['fault'] = None
                yield p
            for k, v in (s.get('spec') or {}).items():
                if isinstance(v, list) and len(v) > 1 and k not in ('shape', 'cols', 'n') or k == 'n' and isinstance(v, list) and len(v) > 1 and plan['fmt'] not in ('zmap', 'rms'):
                    for j in range(len(v)):
                        p = copy.deepcopy(plan)
                        p['steps'][i]['spec'][k] = v[:j] + v[j + 1:]
                        yield p
                elif k == 'shape':
                    for j in range(3):
                        if v[j] > 2:
                            p = copy.deepcopy(plan)
                            p['steps'][i]['spec'][k][j] = 2
                            yield p
                elif v is True:
                    p = copy.deepcopy(plan)
                    p['steps'][i]['spec'][k] = False
                    yield p

    # ------------------------------------------------------------------

    def faulted(self, ctx, fn, args, fault, what):
        """The step with its fault, at an I/O call which an undisturbed copy of it makes; None if it makes none."""
        cls = fault.get('cls') or ['write']
        b = ctx.branch('dry')
        dry = b.process(fn, *args, cls)
        n = None
        if dry.status == 'ok':
            n = dry.result[1] if isinstance(dry.result, tuple) else dry.result
        ctx.merge(b)
        if not n:
            return None
        if fault['kind'] == 'quota':
            k = int(fault['part'] * n)
            arm = [dict(cls = cls, nth = k, action = 'short', arg = int(fault['part'] * 7919) % 1000, suffix = IN), dict(cls = cls, nth = k + 1, action = 'err', arg = 'ENOSPC', repeat = -1, suffix = IN)]
        elif fault['kind'] == 'crash':
            arm = [dict(cls = cls, nth = fault['nth'] % n, action = fault['how'], arg = fault['arg'], suffix = IN)]
        elif fault['kind'] == 'short':
            arm = [dict(cls = cls, nth = fault['nth'] % n, action = 'short', arg = fault['arg'], repeat = fault['repeat'], suffix = IN)]
        else:
            arm = [dict(cls = cls, nth = fault['nth'] % n, action = 'err', arg = fault['err'], repeat = fault['repeat'], suffix = IN)]
        inc = ctx.process(fn, *args, None, arm)
        if inc.status == 'violation':
            core.settle(inc)
        if inc.status == 'died':
            raise core.Violation('process-died', f'{what}: signal {inc.exc[1]}')
        ctx.probe(f'{what.split()[0]}-{fault["kind"]}-{inc.status}')
        return inc

    def right(self, f, spec, how, res, what, cls):
        d = inter.differ(f.want(spec, how), res, f.tol(spec, how))
        check(d is None, cls, lambda: f'{what}: {d}')

    def loads(self, ctx, name, spec, how, what, old = None, may_fail = False):
        """An undisturbed import."""
        f = FMT[name]
        inc = ctx.process(load, name, spec, how)
        if may_fail and inc.status in ('raised', 'harness') or may_fail and inc.status == 'ok' and inc.result[0] is None:
            return
        r, _ = core.settle(inc)
        check(r is not None, 'not-loadable', what)
        if may_fail and torn(f.want(spec, how), r, f.tol(spec, how)):
            return
        if may_fail and old is not None and inter.differ(f.want(old, how), r, f.tol(old, how)) is None:
            return
        self.right(f, spec, how, r, what, 'wrong-data' if not may_fail else 'truncated-accepted')
        ctx.probe('imports-right')

    def execute(self, plan, ctx):
        name = plan['fmt']
        f = FMT[name]
        cur, broken = None, False
        for i, s in enumerate(plan['steps']):
            what = f'{name} step {i} {s["do"]}'
            fault = s.get('fault')
            kind = fault['kind'] if fault else 'none'
            if s['do'] == 'export':
                old, cur = (None if broken else cur), s['spec']
                inc = self.faulted(ctx, export, (name, cur), fault, f'export {what}') if fault else None
                status = inc.status if inc else 'none'
                ctx.state(f'{name}export{kind}{status}')
                if inc is None:
                    core.settle(ctx.process(export, name, cur))
                elif status != 'ok':
                    why = f'{what}, which has failed ({kind}, {status})'
                    how = f.how(random.Random(i), cur)
                    if f.complete(cur, how) and name != 'props' and not (cur.get('only') and cur.get('bin')) and (old is None or old.get('shape') == cur.get('shape')):
                        self.loads(ctx, name, cur, how, why, old, True)
                    core.settle(ctx.process(export, name, cur))
                broken = False
                how = f.how(random.Random(i + 1), cur)
                self.loads(ctx, name, cur, how, f'{what} ({kind}, {status}), loaded {how}')
            elif cur is None:
                continue
            elif s['do'] == 'load':
                how = self.fit(f, cur, s['how'])
                inc = self.faulted(ctx, load, (name, cur, how), fault, f'load {what}') if fault else None
                ctx.state(f'{name}load{kind}{inc.status if inc else "none"}')
                if inc is not None and inc.status == 'ok' and inc.result[0] is not None:
                    self.right(f, cur, how, inc.result[0], f'{what} ({kind}) {how}', 'wrong-data')
                why = f'{what}, having met {kind} {inc.status} {how}' if inc else f'{what} {how}'
                self.loads(ctx, name, cur, how, why)
            elif s['do'] == 'cut':
                if not os.path.isfile(ctx.path('tgt/data')) or cur.get('only') and cur.get('bin'):
                    continue
                b = ctx.branch('cut')
                if core.settle(b.process(cut, 'tgt/data', s['part'])):
                    for how in s['how']:
                        how = self.fit(f, cur, how)
                        if f.complete(cur, how):
                            self.loads(b, name, cur, how, f'{what} {how}', None, True)
                            ctx.probe('cut-files-read')
                ctx.merge(b)
            else:
                how = self.fit(f, cur, s['how'])
                specs = [dict(fn = loading, args = (name, cur, how)), dict(fn = rewriting, args = (name, s['spec']))]
                incs = ctx.concurrently(specs, [tuple(x) for x in s['sched']])
                core.settle(incs[1])
                if incs[0].status == 'died':
                    core.settle(incs[0])
                cur = s['spec']
                ctx.state(f'{name}race{incs[0].status}')
                for how in [self.fit(f, cur, s['how'])] + [self.fit(f, cur, h) for h in s['hows']]:
                    self.loads(ctx, name, cur, how, f'{what}, then loaded {how}')

    def fit(self, f, spec, how):
        """The way of importing, made possible for the file there is."""
        how = dict(how)
        if spec.get('only') and spec.get('bin'):
            how['bin'] = True
        if f is FMT['corp'] and min(spec['shape']) < 2:
            how['extent'] = True
        if 'free' in how:
            how['free'] = how['free'] and not spec['headers'] and spec['kw'] is None
        if 'ab' in how:
            how['ab'] = how['ab'] and spec['bin']
        return how

PROP = P()

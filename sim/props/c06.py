"""C06: a read which meets a disk error raises, never gives wrong data, and leaves nothing behind that spoils a later read."""
import random

from sim import core, lazy, oracle, shim, zoo
from sim.core import check
from sim.saving import SaveProp, new_model

RD = ['open_r', 'read']
KINDS = sorted(lazy.OPEN)
OTHERS = ['well_log', 'wellbore_marker_frame', 'crs', 'string_lookup', 'time_series', 'horizon_interpretation', 'strat_rank']


def pick_fault(rng, n, suffix):
    x = rng.random()
    k = rng.randrange(max(n, 1))
    if x < 0.55:
        return dict(cls = RD, nth = k, action = 'err', arg = rng.choice(['EIO', 'EIO', 'ENOMEM', 'EMFILE', 'EACCES']), repeat = rng.choice([1, 1, 2, 5, -1]), suffix = suffix)
    if x < 0.7:
        return dict(cls = ['open_r'], nth = rng.randrange(max(1, n // 6)), action = 'err', arg = rng.choice(['EMFILE', 'EACCES', 'ENOENT']), repeat = rng.choice([1, 3, -1]), suffix = suffix)
    if x < 0.8:
        return dict(cls = ['read'], nth = k, action = 'short', arg = rng.choice([1, 300, 700]), repeat = rng.choice([1, 4]), suffix = suffix)
    if x < 0.9:
        return dict(cls = RD, nth = k, action = 'err', arg = 'EINTR', repeat = 1, suffix = suffix)
    return dict(cls = ['read'], nth = k, action = 'err', arg = 'EIO', repeat = 1, suffix = suffix)


class P(SaveProp):
    id = 'C06'
    quick_runs = 420
    thorough_runs = 7000
    rule = ('one evaluation is one seeded model, a number of read fault trials against opening it and against seeded sequences of questions to lazily loaded objects of it, each trial in its own copy of the process; '
            'distinct by hash of the event log')
    state_measure = 'distinct (kind of object, question, fault, outcome) combinations'
    assumptions = ['a part whose name has rotted in the directory of an epc is a part the epc does not have; resqpy tolerates content types without parts', 'no checksums: corrupted bytes of an hdf5 file cannot be noticed, so bytes are only corrupted in epc files',
                   'the HDF5 library crashing (SIGSEGV) after an injected error is taken as a report of the error']

    def generate(self, rng, index, tier):
        big = tier != 'quick'
        objs = [[rng.choice(KINDS), rng.randrange(1 << 30)] for _ in range(rng.randint(1, 4))] + [['property', rng.randrange(1 << 30)]] * (rng.random() < 0.5)
        objs += [[rng.choice(OTHERS), rng.randrange(1 << 30)]] * (rng.random() < 0.5)
        trials = []
        for _ in range(rng.randint(3, 12 if big else 6)):
            trials.append(dict(what = rng.choice(['open', 'read', 'ask', 'ask', 'ask', 'ask']), seed = rng.randrange(1 << 30), n = rng.randint(1, 8)))
        return dict(objs = objs, trials = trials)

    def shrink_lists(self, plan):
        return [['trials'], ['objs']]

    def simplify(self, plan):
        for i, t in enumerate(plan['trials']):
            if t['n'] > 1:
                yield dict(plan, trials = plan['trials'][:i] + [dict(t, n = t['n'] - 1)] + plan['trials'][i + 1:])

    def execute(self, plan, ctx):
        objs = core.settle(ctx.process(self.build, plan))
        for i, t in enumerate(plan['trials']):
            core.settle(ctx.process(getattr(self, 'trial_' + t['what']), objs, t))

    def build(self, c, plan):
        m = new_model('a.epc')
        env = zoo.Env()
        for k, s in plan['objs']:
            env.make(m, k, s)
        m.h5_release()
        m.store_epc()
        return [o for o in env.objs if o[2] is not None]

    # --- opening the epc
    def trial_open(self, c, objs, t):
        import resqpy.model as rq
        r = random.Random(t['seed'])
        want = oracle.zip_content('a.epc')
        h = shim.watch(RD)
        check(self.content(rq.Model('a.epc')) == want, 'content', 'an undisturbed open gives another content')
        n = shim.seen(h)
        for i in range(t['n']):
            if r.random() < 0.35:
                core.settle(self.branch(c, i, self.one_rotten, want, r.randrange(1 << 30)))
                continue
            f = pick_fault(r, n, '')
            c.event('open', *(sorted(f.items())))
            core.settle(self.branch(c, i, self.one_open, want, f))
        return True

    def content(self, m):
        return oracle.memory_content(m)

    def one_open(self, c, want, f):
        import resqpy.model as rq
        shim.arm([f])
        try:
            m = rq.Model('a.epc')
            failed = None
        except Exception as e:  # noqa
            failed = type(e).__name__
        shim.disarm()
        fired = bool(shim.fired())
        if failed is None:
            got = self.content(m)
            check(got == want, 'wrong-content', lambda: f'opening an epc under {f} gives another model without an exception: {oracle.diff_content(want, got)}')
        else:
            check(fired, 'undisturbed-failure', f'opening failed with {failed} though no fault happened')
        c.probe('open-' + ('raised' if failed else 'absorbed'))
        c.state(f'open:{f["action"]}:{f["arg"]}:{f["nth"]}:{failed}')
        check(shim.open_fds('.epc') == 0, 'file-left-open', f'epc left open after opening under {f} ({failed})')
        got = self.content(rq.Model('a.epc'))
        check(got == want, 'poisoned', lambda: f'opening again after {failed} under {f}: {oracle.diff_content(want, got)}')
        return True

    def one_rotten(self, c, want, seed):
        """A file with a few corrupted bytes, or cut short: opening raises or gives all of the model."""
        import resqpy.model as rq
        import zipfile
        r = random.Random(seed)
        with open('a.epc', 'rb') as f:
            b = bytearray(f.read())
        how = r.choice(['flip', 'flip', 'flip', 'zero', 'cut'])
        at = r.randrange(len(b))
        if how == 'flip':
            b[at] ^= 1 << r.randrange(8)
        elif how == 'zero':
            b[at:at + 64] = bytes(len(b[at:at + 64]))
        else:
            b = b[:at]
        with open('rot.epc', 'wb') as f:
            f.write(b)
        try:
            with zipfile.ZipFile('rot.epc') as z:
                names = set(z.namelist())
        except Exception:  # noqa
            names = None
        try:
            got = self.content(rq.Model('rot.epc'))
            failed = None
        except Exception as e:  # noqa
            got, failed = None, type(e).__name__
        c.event('rotten', how, at, failed)
        c.state(f'rot:{how}:{at}:{failed}')
        c.probe('rotten-' + ('raised' if failed else 'harmless'))
        if got is not None:
            # a name which itself has rotted is a part the archive does not have: resqpy tolerates those
            w = {k: v for k, v in want.items() if names is None or k in names}
            check(got == w, 'wrong-content', lambda: f'opening a corrupted epc ({how} at {at}) gives another model without an exception: {oracle.diff_content(w, got)}')
        check(shim.open_fds('.epc') == 0, 'file-left-open', f'epc left open after opening a corrupted one ({failed})')
        return True

    def branch(self, c, i, fn, *args):
        b = c.branch(i)
        inc = b.process(fn, *args, fresh = False)
        c.merge(b)
        if inc.status == 'died':
            c.probe('hdf5-library-died')
            return core.Incarnation('ok', [], None, None)
        return inc

    # --- whole object readers
    def trial_read(self, c, objs, t):
        import resqpy.model as rq
        r = random.Random(t['seed'])
        m = rq.Model('a.epc')
        for i in range(t['n']):
            k, u, e = objs[r.randrange(len(objs))]
            core.settle(self.branch(c, i, self.one_read, m, k, u, e, r.randrange(1 << 30)))
        return True

    def one_read(self, c, m, k, u, e, seed):
        r = random.Random(seed)
        b = c.branch('dry')
        n = core.settle(b.process(self.dry_read, m, k, u, e, fresh = False))
        c.merge(b)
        f = pick_fault(r, n, '.h5')
        shim.arm([f])
        try:
            got = zoo.READ[k](m, zoo.U(u), e)
            failed = None
        except Exception as x:  # noqa
            failed = type(x).__name__
        shim.disarm()
        if failed is None:
            d = zoo.diff(e, got)
            check(d is None, 'wrong-data', lambda: f'{k} read under {f}: {d}')
        else:
            check(bool(shim.fired()), 'undisturbed-failure', f'reading {k} failed with {failed} though no fault happened')
        c.event('read', k, f['action'], f['arg'], f['nth'], failed)
        c.probe('read-' + ('raised' if failed else 'absorbed'))
        c.state(f'read:{k}:{f["action"]}:{f["arg"]}:{f["nth"]}:{failed}')
        d = zoo.diff(e, zoo.READ[k](m, zoo.U(u), e))
        check(d is None, 'poisoned', lambda: f'{k} read again after {failed} under {f}: {d}')
        m.h5_release()
        check(shim.open_fds('.h5') == 0, 'file-left-open', f'hdf5 file left open after release, reading {k} under {f}')
        return True

    def dry_read(self, c, m, k, u, e):
        h = shim.watch(RD, '.h5')
        d = zoo.diff(e, zoo.READ[k](m, zoo.U(u), e))
        check(d is None, 'value', lambda: f'{k}: {d}')
        return shim.seen(h)

    # --- questions to lazily loaded objects
    def trial_ask(self, c, objs, t):
        import resqpy.model as rq
        r = random.Random(t['seed'])
        lz = [o for o in objs if o[0] in lazy.OPEN]
        if not lz:
            return False
        sel = [lz[r.randrange(len(lz))] for _ in range(r.choice([1, 1, 2]))]
        # every answer as given by an object which was asked nothing else
        qs = []
        for _ in range(t['n']):
            j = r.randrange(len(sel))
            k = sel[j][0]
            names = sorted(lazy.ASK[k])
            qs.append((j, r.choice(names), r.randrange(1 << 30)))
        ref = []
        for i, (j, name, s) in enumerate(qs):
            b = c.branch(f'r{i}')
            ref.append(core.settle(b.process(self.fresh_answer, sel[j], name, s, fresh = False)))
            c.merge(b)
        b = c.branch('dry')
        n = core.settle(b.process(self.dry_ask, sel, qs, ref, fresh = False))
        c.merge(b)
        for i in range(4):
            fs = [pick_fault(r, n, '.h5') for _ in range(r.choice([1, 1, 2]))]
            core.settle(self.branch(c, i, self.one_ask, sel, qs, ref, fs, r.randrange(1 << 30)))
        return True

    def fresh_answer(self, c, o, name, s):
        import resqpy.model as rq
        m = rq.Model('a.epc')
        try:
            return ('ok', lazy.question(lazy.OPEN[o[0]](m, o[1]), o[0], name, s))
        except Exception as e:  # noqa
            return ('raises', type(e).__name__)

    def objects(self, sel):
        import resqpy.model as rq
        m = rq.Model('a.epc')
        return m, [None] * len(sel)

    def dry_ask(self, c, sel, qs, ref):
        """Undisturbed: the answers do not depend on what was asked before."""
        m, os_ = self.objects(sel)
        h = shim.watch(RD, '.h5')
        for (j, name, s), (st, want) in zip(qs, ref):
            k = sel[j][0]
            if os_[j] is None:
                os_[j] = lazy.OPEN[k](m, sel[j][1])
            try:
                got = ('ok', lazy.question(os_[j], k, name, s))
            except Exception as e:  # noqa
                got = ('raises', type(e).__name__)
            if st == 'raises':  # not a question for this object
                check(got[0] == 'raises', 'order-dependent', lambda: f'{k}.{name} answers after {[q[1] for q in qs]}, though it raises {want} when asked first')
                continue
            check(got[0] == 'ok', 'order-dependent', lambda: f'{k}.{name} raises {got[1]} after {[q[1] for q in qs]}, though not when asked first')
            check(zoo.same(want, got[1], True), 'order-dependent', lambda: f'{k}.{name} after {[q[1] for q in qs]}: {zoo.short(got[1])} instead of {zoo.short(want)}')
        return shim.seen(h)

    def one_ask(self, c, sel, qs, ref, fs, seed):
        r = random.Random(seed)
        m, os_ = self.objects(sel)
        shim.arm(fs)
        done = []
        bad = set()
        for phase in range(2):
            for (j, name, s), (st, want) in zip(qs, ref):
                if st != 'ok':
                    continue
                k = sel[j][0]
                what = f'{k}.{name} ({"under" if phase == 0 else "after"} {fs}, asked before: {done})'
                try:
                    if os_[j] is None:
                        os_[j] = lazy.OPEN[k](m, sel[j][1])
                    got = lazy.question(os_[j], k, name, s)
                except Exception as e:  # noqa
                    check(phase == 0, 'poisoned', lambda: f'{what}: {type(e).__name__} {e}')
                    check(bool(shim.fired()), 'undisturbed-failure', lambda: f'{what}: {type(e).__name__} {e} though no fault happened')
                    done.append(name + '!')
                    c.probe('ask-raised')
                    c.state(f'ask:{k}:{name}:{fs[0]["action"]}:{fs[0]["arg"]}:raised')
                    if r.random() < 0.2:
                        os_[j] = None
                    continue
                check(zoo.same(want, got, True), 'wrong-data' if phase == 0 else 'poisoned', lambda: f'{what}: {zoo.short(got)} instead of {zoo.short(want)}')
                done.append(name)
                c.probe('ask-ok')
                if r.random() < 0.1:
                    m.h5_release()
            shim.disarm()
        c.event('ask', [q[1] for q in qs], [(f['action'], f['nth']) for f in fs], done)
        m.h5_release()
        check(shim.open_fds('.h5') == 0, 'file-left-open', f'hdf5 file left open after release under {fs}')
        return True


PROP = P()

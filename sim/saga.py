"""Seeded histories over several simulated processes: open, edit, save (possibly failing or crashing), open again ..."""
import os
import random
import shutil

from . import core, oracle, shim, world
from .core import check
from .saving import MUT, new_model

NAMES = ['a', 'a', 'a', 'my model', 'x&y', "o'brien", 'é', 'a.b', 'a"q', '<a>', 'a.epc', 'UPPER', '%41', 'a#1', 'very' * 20, 'a\tb', 'a\nb', 'a  b', '{0}', 'é中']


def gen_sessions(rng, lo, hi, lo_edits, hi_edits, crash = 0.15, fail = 0.1, discard = 0.1, **kw):
    out = []
    n = rng.randint(lo, hi)
    for i in range(n):
        x = rng.random()
        end = 'crash' if x < crash else 'fail' if x < crash + fail else 'discard' if (i and x < crash + fail + discard) else \
            rng.choice(['store', 'store', 'store', 'context', 'rename', 'only_if_modified', 'store_twice', 'create_new'])
        out.append(dict(open = rng.choice(['model', 'model', 'context', 'lazy_then_full', 'copy']) if i else 'new', edits = world.gen_edits(rng, lo_edits, hi_edits, **kw),
                        end = end, at = rng.random(), how = rng.choice(['crash_before', 'crash_after', 'torn_crash']), err = rng.choice(['EIO', 'ENOSPC', 'EACCES']),
                        jump = rng.choice([0, 0, 0, rng.randrange(-4 * 10**14, 4 * 10**14)]), q = rng.randrange(1 << 30)))
    return out


def decoy(name, q):
    """Sometimes there are files of another dataset under a name about to be used."""
    if q % 3 == 0:
        for x in ('.epc', '.h5'):
            if q // 3 % 4 != '.epc .h5'.index(x) % 4:
                with open(name + x, 'wb') as f:
                    f.write(b'files of another dataset' * 40)
                if q // 12 % 2:
                    os.utime(name + x, (1, 1))


class State:
    """What survives between processes in the mind of the user: where the model is and what it holds."""

    def __init__(self, name):
        self.name = name
        self.env = None
        self.soft = set()
        self.content = None  # of the last successful save
        self.serial = 0


class Saga:
    """Drives sessions; override the hooks."""

    def opened(self, c, w, st, s):
        pass

    def edited(self, c, w, st, s):
        pass

    def saved(self, c, w, st, s):
        pass

    def between(self, c, st, s):
        """Parent side, after each session."""

    def run(self, ctx, sessions, name = 'a'):
        st = State(name)
        for s in sessions:
            st = self.step(ctx, st, s)
        return st

    def step(self, ctx, st, s):
        n = None
        if s['end'] in ('crash', 'fail'):
            if st.content is None and s['open'] != 'new':
                s = dict(s, open = 'new')
            b = ctx.branch('dry')
            inc = b.process(self.session, st, s, -1)
            n = core.settle(inc)
            ctx.merge(b)
            check(n > 0, 'save-did-nothing', 'a save made no I/O at all')
        if st.content is None:
            s = dict(s, open = 'new')
        inc = ctx.process(self.session, st, s, n)
        ctx.event('session', s['open'], s['end'], inc.status)
        if inc.status == 'crash':
            check(s['end'] == 'crash' and inc.acks, 'unexpected-crash', 'process died without being killed')
            st2 = inc.acks[-1]
            ctx.probe('session-crashed')
            p = ctx.path(st2.name + '.epc')
            if not os.path.exists(p):
                check(st.content is None or st.name != st2.name, 'lost-on-crash', 'epc file vanished in a crash')
                self.between(ctx, st, s)
                return st
            got = oracle.zip_content(p)
            if got == st2.content:
                ctx.probe('crash-left-new')
                st = st2
            else:
                check(got == st.content, 'lost-on-crash', lambda: 'after a crash: ' + oracle.diff_content(st.content or {}, got))
                ctx.probe('crash-left-old')
        else:
            st = core.settle(inc)
        self.between(ctx, st, s)
        return st

    def open(self, st, s):
        import resqpy.model as rq
        f = st.name + '.epc'
        how = s['open']
        cm = None
        if how == 'new':
            m = new_model(f)
        elif s['end'] == 'context':
            cm = rq.ModelContext(f, mode = 'rw')
            m = cm.__enter__()
        elif how == 'lazy_then_full':
            rq.Model(f, full_load = False).list_of_parts()
            m = rq.Model(epc_file = f)
        elif how == 'copy':
            st.serial += 1
            new = f'{st.name[:12]} c{st.serial}'
            decoy(new, s['q'])
            m = rq.Model(new + '.epc', copy_from = f)
            st.name = new
        else:
            m = rq.Model(f)
        return m, cm

    def session(self, c, st, s, n):
        """In the simulated process. n: number of I/O calls of the save (for placing a fault), -1 to measure."""
        import copy
        c_lib = shim.lib()
        if s['jump']:
            c_lib.simio_clock_jump(s['jump'])
        before = copy.deepcopy(st)
        m, cm = self.open(st, s)
        w = world.World(m, env = copy.deepcopy(st.env))
        w.soft = set(st.soft)
        self.opened(c, w, st, s)
        for op in s['edits']:
            w.apply(op)
            c.event(*op)
        self.edited(c, w, st, s)
        if s['q'] % 2:
            m.h5_release()
        if s['end'] == 'discard':
            # a copy made on opening does exist on disk, with its hdf5 file name changed only in memory: forget it
            return before
        new = State(st.name)
        new.serial = st.serial
        if s['end'] == 'rename':
            new.serial += 1
            new.name = f'{st.name[:12]} r{new.serial}'
            decoy(new.name, s['q'])
            m.h5_release()
            if os.path.exists(st.name + '.h5'):
                shutil.copy(st.name + '.h5', new.name + '.h5')
            m.change_filename_in_hdf5_rels(new.name + '.h5')
        new.env, new.soft = w.env, w.soft
        if s['end'] == 'only_if_modified' and not m.modified:
            new.content = before.content
        else:
            new.content = oracle.memory_content(m)
        c.ack(new)
        h = None
        if n == -1:
            h = shim.watch(MUT)
        elif s['end'] == 'crash':
            shim.arm([dict(cls = MUT, nth = min(n - 1, int(s['at'] * n)), action = s['how'], arg = 500)])
        elif s['end'] == 'fail':
            shim.arm([dict(cls = ['open_w', 'write', 'trunc', 'close', 'rename'], nth = min(n - 1, int(s['at'] * n * 0.9)), action = 'err', arg = s['err'])])
        try:
            if cm is not None:
                cm.__exit__(None, None, None)
            elif s['end'] == 'rename':
                m.store_epc(new.name + '.epc')
            elif s['end'] == 'only_if_modified':
                m.store_epc(only_if_modified = True)
            elif s['end'] == 'create_new':
                m.store_epc(st.name + '.epc', quiet = True)
            else:
                m.store_epc()
                if s['end'] == 'store_twice':
                    m.store_epc()
            failed = None
        except OSError as e:
            failed = e
        if n == -1:
            return shim.seen(h)
        if failed is not None:
            check(s['end'] == 'fail', 'unexpected-failure', f'save failed though nothing was wrong: {failed}')
            shim.disarm()
            c.probe('save-failed-and-retried')
            m.store_epc()
        self.saved(c, w, new, s)
        return new

"""C07: models open at once in one process are independent; each holds only its own files, and lets go of them."""
import copy
import hashlib
import os
import random

import numpy as np

from .. import core, oracle, shim, world, zoo
from ..core import check
from ..saving import MUT, SaveProp, new_model

DIRS = ['', 'd1', 'd2', 'd1/e', 'a', 'sp ace']
BASES = ['a', 'a', 'a', 'b', 'a.b', 'ab', 'A', 'a.epc']
OPS = ['add', 'add', 'add', 'add', 'second', 'second', 'edit', 'read', 'read', 'read', 'read', 'release', 'store', 'reopen', 'context', 'context_raise', 'context_fail', 'recreate', 'peek', 'twin', 'foreign', 'clone', 'clone']


class Slot:
    """One model: where it is, what it holds, what is stored of it."""

    def __init__(self, path):
        self.path = path
        self.family = path
        self.w = None
        self.second = None  # uuid of the external part of its second hdf5 file
        self.extra = []  # (kind, uuid, array) in the second file
        self.stored = None

    renamed = False  # files copied under another name: the hdf5 file can then be only the one of the same name
    far = False  # the second hdf5 file is elsewhere, under the same name as the first

    def h5(self, second = False):
        if second and self.far:
            d, b = os.path.split(os.path.abspath(self.path))
            return os.path.join(d, 'far away', b[:-4] + '.h5')
        return self.path[:-4] + ('_2nd.h5' if second else '.h5')

    def prepare(self, m):
        if self.second is not None:
            m.h5_set_default_override('none' if self.far else 'dir')

    def files(self):
        return [self.path, self.h5(), self.h5(True)]


class UserError(Exception):
    pass


def digest(f):
    if not os.path.exists(f):
        return None
    with open(f, 'rb') as fp:
        return hashlib.sha256(fp.read()).hexdigest()


class P(SaveProp):
    id = 'C07'
    quick_runs = 350
    thorough_runs = 5000
    rule = ('one evaluation is one seeded interleaving of operations on two to four models open at once in one simulated process, some with two hdf5 files, with exceptions and failing saves inside '
            'model contexts, and a later process reading everything; distinct by hash of the event log')
    state_measure = 'distinct (operation, previous operation, same model or not, second hdf5 file or not) tuples'
    assumptions = ['a model with more than one hdf5 file is opened with h5_set_default_override("dir") or, if they are in different directories, ("none")', 'a second model object of the same files is used only while the first has released them']

    def generate(self, rng, index, tier):
        paths = []
        while len(paths) < rng.randint(2, 4):
            p = os.path.join(rng.choice(DIRS), rng.choice(BASES) + '.epc')
            if p not in paths:
                paths.append(p)
        n = rng.randint(8, 22 if tier == 'quick' else 50)
        ops = [[rng.choice(OPS), rng.randrange(len(paths)), rng.randrange(1 << 30)] for _ in range(n)]
        return dict(paths = paths, absolute = rng.random() < 0.3, ops = ops)

    def shrink_lists(self, plan):
        return [['ops']]

    def execute(self, plan, ctx):
        slots = core.settle(ctx.process(self.session, plan))
        core.settle(ctx.process(self.verify, plan, slots))

    # ------------------------------------------------------------------

    def session(self, c, plan):
        self.slots = []
        for i, p in enumerate(plan['paths']):
            if os.path.dirname(p):
                os.makedirs(os.path.dirname(p), exist_ok = True)
            s = Slot(os.path.abspath(p) if plan['absolute'] else p)
            s.w = world.World(new_model(s.path))
            s.w.env.make(s.w.m, 'pointset', plan['seed'] + i)
            self.slots.append(s)
        for s in self.slots:
            check(os.path.exists(s.h5()), 'file-vanished', f'{s.h5()} vanished when other models were made')
        prev = (None, None)
        for k, i, q in plan['ops']:
            r = random.Random(q)
            s = self.slots[i]
            if len(self.slots) > len(plan['paths']) and r.random() < 0.4:
                s = r.choice(self.slots[len(plan['paths']):])
            others = [x for x in self.slots if x is not s]
            before = {f: digest(f) for x in others for f in x.files()}
            spy = r.choice(others)
            mem = oracle.memory_content(spy.w.m)
            getattr(self, 'op_' + k)(c, s, r)
            for x in others:
                for f in x.files():
                    check(digest(f) == before[f], 'other-model-file', lambda: f'{k} on {s.path} changed {f} of another model')
            check(oracle.memory_content(spy.w.m) == mem, 'other-model-memory', lambda: f'{k} on {s.path} changed the model of {spy.path}')
            c.event(k, i)
            c.state(f'{k[:9]}:{str(prev[0])[:9]}:{prev[1] == i}:{s.second is not None}')
            c.probe(k)
            prev = (k, i)
        for s in self.slots:
            self.op_store(c, s, None)
            self.let_go(s)
        check(shim.open_fds('.h5') == 0 and shim.open_fds('.epc') == 0, 'left-open', 'files still open after every model has released them')
        return [(s.path, s.w.env, s.second, s.extra, s.far) for s in self.slots]

    def let_go(self, s):
        s.w.m.h5_release()
        for f in s.files():
            check(shim.open_fds(os.path.abspath(f)) == 0, 'left-open', f'{f} still open after h5_release()')

    def op_add(self, c, s, r):
        s.w.env.make(s.w.m, r.choice(world.ARRAYS + ['surface', 'pointset', 'property']), r.randrange(1 << 30))

    def op_edit(self, c, s, r):
        s.w.apply(world.gen_edit(r, arrays = 0.0))

    def op_second(self, c, s, r):
        """Write something to a second hdf5 file of the model."""
        from resqpy.surface import PointSet
        if s.renamed:
            return
        m = s.w.m
        fn = s.h5(True)
        a = zoo.farr(r, (r.randint(1, 20), 3))
        mode = 'a'
        if s.second is None:
            s.far = r.random() < 0.5
            fn = s.h5(True)
            if s.far:
                os.makedirs(os.path.dirname(fn), exist_ok = True)
            e = m.create_hdf5_ext(file_name = fn)
            if s.far:  # as other applications may have it
                for _, t in m.rels_forest.values():
                    for x in t.getroot():
                        if x.attrib['Id'] == 'Hdf5File' and t.getroot() is self.ext_rels(m, e.attrib['uuid']):
                            x.set('Target', fn)
            s.second = e.attrib['uuid']
            s.prepare(m)
            mode = r.choice(['a', 'w'])
        o = PointSet(m, points_array = a.copy(), crs_uuid = zoo.depth_crs(m, r, s.w.env), title = zoo.title(r, 'second'))
        o.write_hdf5(file_name = fn, mode = mode)
        o.create_xml(ext_uuid = zoo.U(s.second))
        s.extra.append((str(o.uuid), a))

    @staticmethod
    def ext_rels(m, u):
        for n, (_, t) in m.rels_forest.items():
            if u in n:
                return t.getroot()

    def op_read(self, c, s, r):
        self.look(c, s.w.m, s.w.env, s.extra, r, r.randint(1, 3), s.path)

    def look(self, c, m, env, extra, r, n, where):
        from resqpy.surface import PointSet
        objs = [o for o in env.objs if o[2] is not None]
        for k, u, e in (r.sample(objs, min(n, len(objs))) if n else objs):
            d = zoo.diff(e, zoo.READ[k](m, zoo.U(u), e))
            check(d is None, 'value', lambda: f'{where}: {k} {u}: {d}')
            c.probe('objects-read')
        for u, a in (r.sample(extra, min(1, len(extra))) if n else extra):
            if not m.uuid_is_present(u):
                continue  # removed by an edit
            got = PointSet(m, uuid = zoo.U(u)).single_patch_array_ref(0)
            check(got.shape == a.shape and np.array_equal(got, a), 'value', lambda: f'{where}: points {u} in second hdf5 file')
            c.probe('second-read')
        if n and r.random() < 0.4:
            # stay in the middle of the file: the handle remains open for reading
            ps = [o for o in objs if o[0] == 'pointset']
            if ps:
                k, u, e = r.choice(ps)
                m.h5_access(m.h5_uuid_and_path_for_node(m.root_for_uuid(zoo.U(u)).find('.//{*}Points/{*}Coordinates/..') or m.root_for_uuid(zoo.U(u)).find('.//{*}Points'), 'Coordinates')[0])

    def op_release(self, c, s, r):
        self.let_go(s)
        # another process can have the file
        import h5py

        def other(cc):
            for f in s.files()[1:]:
                if os.path.exists(f):
                    with h5py.File(f, 'r') as fp:
                        n = len(fp.keys())
                    with open(f, 'rb+'):
                        pass
            return True

        inc = c.process(other)
        check(inc.status == 'ok', 'still-locked', lambda: f'after h5_release() another process cannot open the hdf5 files of {s.path}: {inc.exc}')

    def op_store(self, c, s, r):
        s.w.m.store_epc()
        s.stored = (oracle.memory_content(s.w.m), copy.deepcopy(s.w.env), s.second, list(s.extra), s.far)
        check(oracle.zip_content(s.path) == s.stored[0], 'save-incomplete', lambda: f'{s.path}: not what the model holds: {oracle.diff_content(s.stored[0], oracle.zip_content(s.path))}')

    def settle_in(self, s, m):
        """m has been opened from what is stored."""
        content, env, s.second, extra, s.far = s.stored
        s.extra = list(extra)
        s.w = world.World(m, env = copy.deepcopy(env))
        s.prepare(m)
        check(oracle.memory_content(m) == content, 'opened-other', lambda: f'{s.path}: opened model is not the one stored: {oracle.diff_content(content, oracle.memory_content(m))}')

    def op_reopen(self, c, s, r):
        import resqpy.model as rq
        if s.stored is None or r.random() < 0.7:
            self.op_store(c, s, r)
        self.let_go(s)
        self.settle_in(s, rq.Model(s.path))

    def in_context(self, c, s, r, how):
        import resqpy.model as rq
        if s.stored is None:
            self.op_store(c, s, r)
        self.let_go(s)
        mode = r.choice(['r', 'rw', 'read', 'read/write']) if how != 'fail' else r.choice(['rw', 'read/write'])
        before = digest(s.path)
        raised = None
        try:
            with rq.ModelContext(s.path, mode = mode) as m:
                self.settle_in(s, m)
                for _ in range(r.randint(1, 3)):
                    getattr(self, 'op_' + r.choice(['add', 'read', 'edit'] + (['second'] if s.second else [])))(c, s, r)
                content = oracle.memory_content(m)
                if how == 'raise':
                    if r.random() < 0.6:
                        m.h5_access(mode = r.choice(['r', 'a']))
                    if r.random() < 0.3:
                        m.store_epc()  # explicitly, before it goes wrong
                        s.stored = (content, copy.deepcopy(s.w.env), s.second, list(s.extra), s.far)
                        before = digest(s.path)
                    raise UserError('something else went wrong')
                if how == 'fail':
                    m.h5_access(mode = 'r')
                    shim.arm([dict(cls = ['open_w', 'write', 'rename'], nth = r.randrange(40), action = 'err', arg = r.choice(['EIO', 'ENOSPC']), repeat = -1, suffix = '.tmp')])
        except (UserError, OSError) as e:
            raised = e
        shim.disarm()
        for f in s.files():
            check(shim.open_fds(os.path.abspath(f)) == 0, 'left-open', f'{f} still open after leaving a model context ({how}, mode {mode})')
        if how == 'raise':
            check(isinstance(raised, UserError), 'exception-replaced', lambda: f'an exception raised within a model context came out as {raised!r}')
            check(digest(s.path) == before, 'stored-on-exception', f'{s.path}: epc changed on leaving a {mode} context by an exception')
        elif how == 'fail':
            if raised is not None:
                c.probe('context-save-failed')
                check(digest(s.path) == before, 'lost-on-error', f'{s.path}: epc changed though the save on leaving the context failed')
            else:
                s.stored = (content, copy.deepcopy(s.w.env), s.second, list(s.extra), s.far)
        else:
            check(raised is None, 'unexpected-exception', lambda: repr(raised))
            if mode in ('rw', 'read/write'):
                s.stored = (content, copy.deepcopy(s.w.env), s.second, list(s.extra), s.far)
            else:
                check(digest(s.path) == before, 'stored-in-read-mode', f'{s.path}: epc changed by a context in read mode')
        check(oracle.zip_content(s.path) == s.stored[0], 'save-incomplete', lambda: f'{s.path}: after a {mode} context ({how}): {oracle.diff_content(s.stored[0], oracle.zip_content(s.path))}')
        self.settle_in(s, rq.Model(s.path))

    def op_context(self, c, s, r):
        self.in_context(c, s, r, 'ok')

    def op_context_raise(self, c, s, r):
        self.in_context(c, s, r, 'raise')

    def op_context_fail(self, c, s, r):
        self.in_context(c, s, r, 'fail')

    def op_recreate(self, c, s, r):
        """A context in create mode replaces the model, and only that."""
        import resqpy.model as rq
        if r.random() < 0.6:
            return
        self.let_go(s)
        with rq.ModelContext(s.path, mode = r.choice(['c', 'create'])) as m:
            s.w = world.World(m)
            s.second, s.extra = None, []
            check(not m.parts(), 'opened-other', f'{s.path}: a model made by a context in create mode has parts')
            for _ in range(r.randint(1, 3)):
                self.op_add(c, s, r)
            content = oracle.memory_content(m)
        s.stored = (content, copy.deepcopy(s.w.env), None, [], False)
        check(shim.open_fds(os.path.abspath(s.h5())) == 0, 'left-open', f'{s.h5()} still open after leaving a context in create mode')
        self.settle_in(s, rq.Model(s.path))

    def op_peek(self, c, s, r):
        """Contexts refuse what they should."""
        import resqpy.model as rq
        for args in ((s.path, 'x'), (s.path, ''), (s.path[:-4] + ' absent.epc', 'r'), (s.path[:-4] + ' absent.epc', 'rw')):
            try:
                with rq.ModelContext(*args):
                    pass
                ok = False
            except (ValueError, FileNotFoundError):
                ok = True
            check(ok, 'not-refused', f'ModelContext{args} accepted')
            check(not os.path.exists(s.path[:-4] + ' absent.epc'), 'not-refused', f'ModelContext{args} made a file')

    def op_twin(self, c, s, r):
        """A second model object of the same files reads what is stored, and does not see or disturb the first."""
        import resqpy.model as rq
        if s.stored is None:
            return
        s.w.m.h5_release()
        mem = oracle.memory_content(s.w.m)
        m = rq.Model(s.path)
        content, env, second, extra, far = s.stored
        if second is not None:
            m.h5_set_default_override('none' if far else 'dir')
        check(oracle.memory_content(m) == content, 'opened-other', f'{s.path}: second model object does not hold what is stored')
        self.look(c, m, env, extra, r, 3, s.path + ' (second model object)')
        m.h5_release()
        check(oracle.memory_content(s.w.m) == mem, 'other-model-memory', f'{s.path}: changed by reading through a second model object')

    def op_foreign(self, c, s, r):
        """Arrays of another model, written beside, do not become this model's."""
        o = r.choice([x for x in self.slots if x is not s])
        if o.family == s.family:
            return  # one was copied from the other
        k, u, e = r.choice(o.w.env.objs)
        check(not s.w.m.uuid_is_present(zoo.U(u)) and s.w.m.part_for_uuid(u) is None and s.w.m.root_for_uuid(u) is None, 'foreign-part', f'{s.path} has an object of {o.path}')

    def op_clone(self, c, s, r):
        """A copy of the dataset, with the same uuids, lives its own life."""
        import shutil
        import resqpy.model as rq
        if len(self.slots) > 5:
            return
        d = r.choice(DIRS)
        b = r.choice(BASES + [os.path.basename(s.path)[:-4]] * 4)
        p = os.path.join(d, b + '.epc')
        if os.path.isabs(s.path):
            p = os.path.abspath(p)
        n = Slot(p)
        if any(os.path.exists(f) for f in n.files()):
            return
        if s.stored is None or r.random() < 0.5:
            self.op_store(c, s, r)
        if d:
            os.makedirs(d, exist_ok = True)
        content, env, second, extra, far = s.stored
        if second is not None:
            return  # a second file would be shared
        copied = r.random() < 0.5
        s.w.m.h5_release()
        if copied:
            m = rq.Model(p, copy_from = s.path)
        else:
            shutil.copy(s.path, p)
            shutil.copy(s.h5(), n.h5())
            m = rq.Model(p)
            n.renamed = os.path.basename(p) != os.path.basename(s.path)
        n.family = s.family
        n.renamed = n.renamed or s.renamed and not copied
        n.w = world.World(m, env = copy.deepcopy(env))
        if copied:
            self.op_store(c, n, r)  # until then the epc has the name of the hdf5 file copied from
        else:
            n.stored = (content, copy.deepcopy(env), None, [], False)
            check(oracle.memory_content(m) == content, 'opened-other', lambda: f'{p}: copy of {s.path} is not what was stored: {oracle.diff_content(content, oracle.memory_content(m))}')
        self.slots.append(n)
        c.probe('copied-dataset')

    # ------------------------------------------------------------------

    def verify(self, c, plan, slots):
        """Later process: all models open at once, read in turns."""
        import resqpy.model as rq
        ms = [rq.Model(p) for p, *_ in slots]
        for m, (p, env, second, extra, far) in zip(ms, slots):
            if second is not None:
                m.h5_set_default_override('none' if far else 'dir')
        r = random.Random(plan['seed'])
        for _ in range(3):
            for m, (p, env, second, extra, far) in zip(ms, slots):
                self.look(c, m, env, extra, r, 2, p + ' later, in turns')
        for m, (p, env, second, extra, far) in zip(ms, slots):
            self.look(c, m, env, extra, r, 0, p + ' later')
            m.h5_release()
        check(shim.open_fds('.h5') == 0, 'left-open', 'later: files still open')
        return True


PROP = P()

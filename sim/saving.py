"""Shared by the properties about saving: oracles of what is on disk, save modes."""
import os

from . import core, oracle, shim, world
from .core import check

MUT = ['open_w', 'write', 'trunc', 'close', 'rename', 'unlink', 'fsync', 'mkdir', 'open_r', 'read']


def new_model(name):
    import resqpy.model as rq
    return rq.new_model(name)


def readable(ctx, name, what, want, cls):
    """Fresh process: the file must be absent only if 'None' is wanted, else complete and one of the wanted contents."""
    p = ctx.path(name)
    if not os.path.exists(p):
        check(any(w is None for w in want), cls, f'{what}: epc file has vanished')
        return None
    try:
        roots = oracle.zip_roots(p)
    except Exception as e:  # noqa
        raise core.Violation(cls, f'{what}: epc file is not readable: {type(e).__name__} {e}')
    got = {n: oracle.digest(r) for n, r in roots.items()}
    for i, w in enumerate(want):
        if w is not None and got == w:
            f = oracle.structure_fault(roots)
            check(f is None, 'package-structure', lambda: f'{what}: {f}')
            return i
    w = [x for x in want if x is not None]
    raise core.Violation(cls, f'{what}: content is neither the previous nor the new version: ' + (oracle.diff_content(w[-1], got) if w else 'should be absent'))


def load_back(ctx, name):
    """resqpy itself must be able to open what is on disk, and see the same parts."""
    import resqpy.model as rq
    m = rq.Model(name)
    return oracle.memory_content(m)


class SaveProp(core.Prop):
    real = ['resqpy model, organize, property, surface, well, grid and strata code', 'zipfile', 'lxml', 'h5py/HDF5']
    stub = ['system calls on the simulated disk', 'clock', 'entropy', 'process death']

    def setup(self):
        import_resqpy()


def import_resqpy():
    import resqpy.model, resqpy.grid, resqpy.property, resqpy.surface, resqpy.well, resqpy.organize, resqpy.strata, resqpy.fault, resqpy.unstructured  # noqa
    import resqpy.rq_import, resqpy.lines, resqpy.time_series, resqpy.olio.dataframe  # noqa


class Scene:
    """A model with a stored version, then edits, ready to be saved in one of several ways."""

    MODES = ['store', 'store', 'store', 'context', 'first', 'rename', 'only_if_modified', 'symlink']

    def __init__(self, plan):
        import resqpy.model as rq
        self.mode = plan['mode']
        self.name = plan.get('name', 'a') + '.epc'
        m = new_model(self.name)
        self.w = world.World(m)
        for op in plan['ops']:
            self.w.apply(op)
        self.v1 = None
        if self.mode != 'first':
            m.store_epc()
            self.v1 = oracle.memory_content(m)
            if self.mode == 'symlink':
                os.makedirs('sub')
                os.rename(self.name, 'sub/real.epc')
                os.symlink('sub/real.epc', self.name)
        m.h5_release()
        if self.mode == 'context':
            self.cm = rq.ModelContext(self.name, mode = 'rw')
            m = self.cm.__enter__()
            self.w.m = m
        for op in plan['ops2']:
            self.w.apply(op)
        m.h5_release()
        m.set_modified()
        self.m = m
        self.target = 'b.epc' if self.mode == 'rename' else self.name
        self.v2 = oracle.memory_content(m)

    def save(self):
        if self.mode == 'context':
            self.cm.__exit__(None, None, None)
        elif self.mode == 'rename':
            self.m.store_epc(self.target)
        elif self.mode == 'only_if_modified':
            self.m.store_epc(only_if_modified = True)
        else:
            self.m.store_epc()

    def calls(self, ctx, classes):
        """Number of I/O calls of an undisturbed save, made on a copy of the disk."""

        def whole(c):
            h = shim.watch(classes)
            self.save()
            return shim.seen(h)

        b = ctx.branch('dry')
        n = core.settle(b.process(whole, fresh = False))
        readable(b, self.target, 'undisturbed save', [self.v2], 'save-incomplete')
        ctx.merge(b)
        check(n > 0, 'save-did-nothing', 'a save made no I/O at all')
        ctx.probe('save-io-calls', n)
        ctx.event('calls', n)
        return n

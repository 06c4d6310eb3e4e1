"""C05: the hdf5 side of a model behaves as a dictionary of arrays across sessions, files, slices, packing and compression."""
import os
import random

import numpy as np

from .. import core, shim, zoo
from ..core import check
from ..saving import SaveProp, new_model

WR = ['open_w', 'write', 'trunc', 'close', 'fsync']
DT = ['f8', 'f8', 'f4', 'i8', 'i4', 'i2', 'u1', 'b1', 'i8']
TAILS = ['values_patch0', 'points_patch0', 'coordinates', 'Points/patch_1', '/mds', 'tail/', 'x y', 'é']


class Holder:
    pass


class Arr:
    """What one dataset must hold: value as written, dtype stored, packed or not."""

    def __init__(self, f, path, value, pack = False, how = ''):
        self.f, self.path, self.value, self.pack, self.how = f, path, value, pack, how

    def stored(self):
        v = np.packbits(self.value, axis = -1) if self.pack else self.value
        return v.astype(np.uint8) if v.dtype == bool else v


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan = a.dtype.kind == 'f' and b.dtype.kind == 'f')


def make_array(r):
    dt = r.choice(DT)
    nd = r.choice([1, 1, 2, 2, 3, 3, 4])
    shape = tuple(r.choice([1, 2, 3, 4, 5, 7, 8, 9, 17]) if a == nd - 1 else r.randint(1, 5) for a in range(nd))
    g = zoo.nprng(r)
    if dt == 'b1':
        return g.rand(*shape) > 0.5
    if dt[0] == 'f':
        a = g.uniform(-1e6, 1e6, size = shape).astype(dt)
        if r.random() < 0.3:
            a.reshape(-1)[r.randrange(a.size)] = np.nan
        return a
    lo, hi = {'i8': (-2**31, 2**31), 'i4': (-2**31, 2**31), 'i2': (-2**15, 2**15), 'u1': (0, 256)}[dt]
    return g.randint(lo, hi, size = shape, dtype = np.int64).astype(dt)


def rnd_slice(r, shape):
    t = []
    for n in shape[:r.randint(1, len(shape))]:
        x = r.random()
        if x < 0.35:
            t.append(r.randrange(n))
        elif x < 0.5:
            t.append(slice(None))
        else:
            a = r.randrange(n)
            t.append(slice(a, r.randint(a + 1, n)) if r.random() < 0.8 else slice(0, n, 2))
    return tuple(t)


class Session:
    """Operations within one simulated process."""

    def __init__(self, c, plan, st):
        import resqpy.model as rq
        self.c, self.plan, self.st = c, plan, st
        if st is None:
            self.st = dict(files = [], ext = [], arrs = [], props = [], grid = None, extent = None, n = 0)
            m = new_model('a.epc')
            m.h5_set_default_override(plan['override'])
            self.m = m
            for k in range(plan['nfiles']):
                fn = 'a.h5' if k == 0 else f'x {k}.h5'
                if k == 0 and plan['nfiles'] == 1 or k == 0:
                    ext = m.h5_uuid() or self.ext(m, fn)
                else:
                    ext = self.ext(m, fn)
                self.st['files'].append(fn)
                self.st['ext'].append(str(ext))
            if plan['nfiles'] == 1:
                import resqpy.grid as grr
                r = random.Random(plan['seed'])
                e = (r.randint(1, 4), r.randint(1, 4), r.choice([1, 3, 7, 8, 9]))
                g = grr.RegularGrid(m, extent_kji = e, dxyz = (10.0, 20.0, 3.0), title = 'g', set_points_cached = False)
                g.create_xml(add_cell_length_properties = False)
                self.st['grid'], self.st['extent'] = str(g.uuid), e
            m.store_epc()
        else:
            m = rq.Model('a.epc')
            m.h5_set_default_override(plan['override'])
            self.m = m
        self.readonly = False

    @staticmethod
    def ext(m, fn):
        node = m.create_hdf5_ext(file_name = fn, title = 'ext ' + fn)
        return node.attrib['uuid']

    @property
    def dirty(self):
        return self.m.h5_currently_open_root is not None and self.m.h5_currently_open_mode != 'r'

    # --- operations; each returns nothing and checks what it can
    def op_write(self, r):
        import resqpy.olio.uuid as bu
        import resqpy.olio.write_hdf5 as rwh5
        st = self.st
        f = r.randrange(len(st['files']))
        kw = {}
        if r.random() < 0.4:
            kw['default_chunks'] = r.choice(['auto', 'all', 'slice', 'none'])
        if r.random() < 0.4:
            kw['default_compression'] = r.choice(['gzip', 'lzf', 'none'])
        glob = r.random() < 0.15
        if glob:
            rwh5.set_global_default_chunks_and_compression(r.choice([None, 'auto', 'all', 'slice']), r.choice([None, 'gzip', 'lzf']))
        reg = rwh5.H5Register(self.m, **kw)
        if glob and r.random() < 0.5:
            rwh5.set_global_default_chunks_and_compression(None, None)
        new = []
        use32 = r.choice([None, None, True, False])
        u, seen = None, set()
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if u is None or r.random() < 0.5:
                u = bu.new_uuid()
            a = make_array(r)
            tail = r.choice(TAILS)
            clean = tail.strip('/')
            if (str(u), clean) in seen:
                continue
            seen.add((str(u), clean))
            pk = {}
            dt, want = None, a
            x = r.random()
            if a.dtype == bool and x < 0.6:
                pk['dtype'] = 'pack'
            elif a.dtype == bool and x < 0.8:
                pk['dtype'] = r.choice(['uint8', np.uint8, bool])
            elif a.dtype.kind == 'f' and x < 0.4:
                pk['dtype'] = r.choice(['float32', float, np.float32])
                want = a.astype(pk['dtype'])
            elif a.dtype.kind in 'iu' and x < 0.3:
                pk['dtype'] = r.choice([np.int64, 'int64', np.int32 if a.dtype != np.int64 or np.abs(a).max() < 2**31 else np.int64])
                want = a.astype(pk['dtype'])
            pack = pk.get('dtype') == 'pack'
            shp = np.packbits(a, axis = -1).shape if pack else a.shape
            if r.random() < 0.4:
                pk['chunks'] = r.choice(['auto', 'all', 'slice', 'none', shp])
            if r.random() < 0.4:
                pk['compression'] = r.choice(['gzip', 'lzf', 'none'])
            path = f'/RESQML/{u}/{clean}'
            if r.random() < 0.15:
                path = pk['hdf5_internal_path'] = f'/RESQML/{u}/other/{len(new)}'
            b = a.copy()
            if r.random() < 0.3:
                pk['copy'] = True
            reg.register_dataset(u, tail, b, **pk)
            if pk.get('copy'):
                b[...] = 0  # registered as a copy: later changes must not be seen
            if 'dtype' not in pk and want.dtype == np.int64 and use32 is not False:
                want = want.astype(np.int32)
            new.append(Arr(f, path, want.copy(), pack, f'{a.dtype} {pk.get("dtype")}'))
        rel = r.random() < 0.7
        fn = None if f == 0 and len(st['files']) == 1 and r.random() < 0.7 else self.fname(f)
        fresh = not os.path.exists(st['files'][f])
        reg.write(fn, mode = r.choice(['w', 'a']) if fresh else 'a', release_after = rel, use_int32 = use32)
        if rel and new:
            check(self.m.h5_currently_open_root is None, 'not-released', 'hdf5 file still open after write with release')
        st['arrs'] += new
        rwh5.set_global_default_chunks_and_compression(None, None)
        self.c.probe('datasets-written', len(new))
        if new:
            self.c.probe('wrote')

    def fname(self, f):
        return self.st['files'][f]

    def key(self, a):
        import resqpy.olio.uuid as bu
        return (bu.uuid_from_string(self.st['ext'][a.f]), a.path)

    def pick(self, r):
        return r.choice(self.st['arrs']) if self.st['arrs'] else None

    def op_read(self, r):
        a = self.pick(r)
        if a is None:
            return
        self.read(r, a)

    def read(self, r, a):
        how = r.choice(['full', 'full', 'full_index', 'element', 'element', 'slice', 'shape', 'partial', 'cached'])
        m, v, key = self.m, a.value, self.key(a)
        what = f'{how} read of {a.how} {v.shape} array'
        self.c.probe('read-' + how)
        self.c.state(f'{how}:{a.how}:{v.ndim}:{a.pack}')
        if how in ('full', 'full_index', 'cached'):
            h = Holder()
            kw = dict(dtype = r.choice([float, 'float', np.float32]) if v.dtype.kind == 'f' else bool if v.dtype == bool and not a.pack else r.choice(['pack', bool]) if a.pack
                      else r.choice([int, 'int', v.dtype, float]))
            shape = v.shape
            if a.pack:
                kw['required_shape'] = r.choice([tuple, list])(v.shape)
            elif r.random() < 0.3:
                shape = kw['required_shape'] = r.choice([(v.size,), (1,) + v.shape, v.shape, v.shape + (1,)])
            want = v.reshape(shape).astype(bool if kw['dtype'] == 'pack' else kw['dtype'])
            if how == 'full':
                m.h5_array_element(key, index = None, cache_array = True, object = h, array_attribute = 'x', **kw)
            else:
                ix = tuple(r.randrange(n) for n in shape)
                got = m.h5_array_element(key, index = ix, cache_array = True, object = h, array_attribute = 'x', **kw)
                check(same(got, want[ix]), 'read-value', lambda: f'{what}: element {ix}: wrote {want[ix]} read {got}')
                if how == 'cached':
                    ix = tuple(r.randrange(n) for n in shape)
                    got = m.h5_array_element(key, index = ix, cache_array = r.random() < 0.5, object = h, array_attribute = 'x', **kw)
                    check(same(got, want[ix]), 'read-value', lambda: f'{what}: cached element {ix}: wrote {want[ix]} read {got}')
            check(same(h.x, want) and h.x.dtype == want.dtype, 'read-value', lambda: f'{what}: wrote {zoo.short(want)} read {zoo.short(h.x)}')
            return
        if a.pack and v.shape[-1] == 1:
            return  # packing gains nothing: how a single bit is stored is not claimed
        if a.pack:
            v = a.stored()
        if how == 'element':
            ix = tuple(r.randrange(n) for n in v.shape)
            kw = dict(dtype = r.choice(['float', float]) if v.dtype.kind == 'f' else r.choice([int, 'int', 'float']))
            want = v[ix]
            if r.random() < 0.5:
                rs = r.choice([(v.size,), (1,) + v.shape, v.shape])
                nat = int(np.ravel_multi_index(ix, v.shape))
                ix = tuple(int(x) for x in np.unravel_index(nat, rs))
                kw['required_shape'] = rs
            got = m.h5_array_element(key, index = ix, **kw)
            check(same(float(got), float(want)), 'read-value', lambda: f'{what}: {ix} {kw}: wrote {want} read {got}')
        elif how == 'partial':
            ix = tuple(r.randrange(n) for n in v.shape[:r.randint(1, v.ndim)])
            got = m.h5_array_element(key, index = ix, dtype = None)
            check(same(got, a.stored()[ix]), 'read-value', lambda: f'{what}: {ix}: wrote {zoo.short(a.stored()[ix])} read {zoo.short(got)}')
        elif how == 'slice':
            s = rnd_slice(r, v.shape)
            got = m.h5_array_slice(key, s)
            check(same(got, a.stored()[s]), 'read-value', lambda: f'{what}: {s}: wrote {zoo.short(a.stored()[s])} read {zoo.short(got)}')
        elif how == 'shape':
            shp, dt = m.h5_array_shape_and_type(key)
            check(tuple(shp) == v.shape and dt == a.stored().dtype, 'read-value', lambda: f'{what}: {shp} {dt} for {v.shape} {a.stored().dtype}')

    def op_over(self, r):
        a = self.pick(r)
        if a is None or a.pack or a.value.dtype == bool:
            return
        g = zoo.nprng(r)
        self.c.probe('overwritten')
        if r.random() < 0.4:
            b = g.randint(0, 100, size = a.value.shape).astype(a.value.dtype)
            self.m.h5_overwrite_array(self.key(a), b)
            a.value = b
        else:
            s = rnd_slice(r, a.value.shape)
            b = g.randint(0, 100, size = a.value[s].shape).astype(a.value.dtype)
            self.m.h5_overwrite_array_slice(self.key(a), s, b)
            a.value = a.value.copy()
            a.value[s] = b

    def op_release(self, r):
        self.m.h5_release()

    def op_reopen(self, r):
        import resqpy.model as rq
        self.m.h5_release()
        self.m = rq.Model('a.epc')
        self.m.h5_set_default_override(self.plan['override'])
        if r.random() < 0.5:
            self.m.h5_clear_filename_cache()

    def groups(self, f):
        g = {a.path.split('/')[2] for a in self.st['arrs'] if a.f == f}
        if self.st['grid'] is not None:
            g |= {p['uuid'] for p in self.st['props'] if p['style'] != 'const' or p['expand']}
        return sorted(g)

    def op_copy(self, r):
        import resqpy.olio.uuid as bu
        import resqpy.olio.write_hdf5 as rwh5
        st = self.st
        f = r.randrange(len(st['files']))
        gs = self.groups(f)
        if not gs:
            return
        self.op_release(r)
        sel = r.sample(gs, r.randint(0, len(gs)))
        us = [bu.uuid_from_string(x) for x in sel]
        mode = r.choice(['all', 'in', 'out'])
        st['n'] += 1
        out = f'copy{st["n"]}.h5'
        kw = {} if mode == 'all' else dict(uuid_inclusion_list = us) if mode == 'in' else dict(uuid_exclusion_list = us)
        want = set(gs) if mode == 'all' else set(sel) if mode == 'in' else set(gs) - set(sel)
        extra = None
        if r.random() < 0.4:
            # part of it is there already: appending must not disturb or duplicate
            first = r.sample(gs, r.randint(0, len(gs)))
            rwh5.copy_h5(st['files'][f], out, uuid_inclusion_list = [bu.uuid_from_string(x) for x in first], mode = 'w')
            n = rwh5.copy_h5(st['files'][f], out, mode = 'a', **kw)
            check(n == len(want - set(first)), 'copy-count', f'{n} groups reported copied, {len(want - set(first))} expected')
            want |= set(first)
        else:
            n = rwh5.copy_h5(st['files'][f], out, mode = r.choice(['w', 'a']), **kw)
            check(n == len(want), 'copy-count', f'{n} groups reported copied, {len(want)} expected')
        self.compare_raw(out, [a for a in st['arrs'] if a.f == f and a.path.split('/')[2] in want], 'copied hdf5 file')
        os.remove(out)
        self.c.probe('copied-h5')

    def op_copy_paths(self, r):
        import resqpy.olio.write_hdf5 as rwh5
        st = self.st
        f = r.randrange(len(st['files']))
        arrs = [a for a in st['arrs'] if a.f == f]
        if not arrs:
            return
        self.op_release(r)
        sel = r.sample(arrs, r.randint(1, len(arrs)))
        sel2 = r.sample(arrs, r.randint(1, len(arrs)))
        st['n'] += 1
        out = f'copy{st["n"]}.h5'
        kw = {}
        if r.random() < 0.5:
            kw['chunks'] = r.choice(['auto', 'all', 'slice'])
        if r.random() < 0.5:
            kw['compression'] = r.choice(['gzip', 'lzf'])
        n = rwh5.copy_h5_path_list(st['files'][f], out, [a.path for a in sel], mode = 'w', **kw)
        check(n == len(sel), 'copy-count', f'{n} datasets reported copied, {len(sel)} expected')
        n = rwh5.copy_h5_path_list(st['files'][f], out, [a.path for a in sel2], mode = 'a', **kw)
        check(n == len([a for a in sel2 if a not in sel]), 'copy-count', f'{n} datasets reported copied on appending')
        self.compare_raw(out, [a for a in arrs if a in sel or a in sel2], 'hdf5 file of copied paths')
        os.remove(out)
        self.c.probe('copied-paths')

    def op_change_uuid(self, r):
        import resqpy.olio.uuid as bu
        import resqpy.olio.write_hdf5 as rwh5
        st = self.st
        f = r.randrange(len(st['files']))
        gs = [g for g in self.groups(f) if not any(p['uuid'] == g for p in st['props'])]
        if not gs:
            return
        self.op_release(r)
        old, new = r.choice(gs), str(bu.new_uuid())
        rwh5.change_uuid(st['files'][f], bu.uuid_from_string(old), bu.uuid_from_string(new))
        for a in st['arrs']:
            if a.f == f:
                a.path = a.path.replace(old, new)
        self.c.probe('changed-uuid')

    # properties
    def op_prop(self, r):
        from resqpy.property import Property, GridPropertyCollection, PropertyCollection
        st = self.st
        if st['grid'] is None:
            return
        e = tuple(st['extent'])
        kw = {}
        if r.random() < 0.4:
            kw['chunks'] = r.choice(['auto', 'all', 'slice'])
        if r.random() < 0.4:
            kw['compression'] = r.choice(['gzip', 'lzf'])
        if r.random() < 0.5:
            spec, arr, pk, dtype = self.prop_spec(r, e)
            p = Property.from_array(self.m, None if arr is None else arr.copy(), 'sim', spec['title'], zoo.U(st['grid']), use_pack = spec['pack'], dtype = dtype, expand_const_arrays = spec['expand'], **pk, **kw)
            spec['uuid'] = str(p.uuid)
            st['props'].append(spec)
        else:
            pc = PropertyCollection()
            pc.set_support(model = self.m, support_uuid = zoo.U(st['grid']))
            specs = []
            use_pack, expand = r.random() < 0.5, r.random() < 0.5
            use32 = r.choice([None, True, False])
            for _ in range(r.randint(1, 4)):
                spec, arr, pk, _ = self.prop_spec(r, e, batch = True)
                spec['pack'] = use_pack and spec['style'] == 'bool'
                if spec['style'] == 'const':
                    spec['expand'] = expand
                spec['uuid'] = str(pc.add_cached_array_to_imported_list(None if arr is None else arr.copy(), 'sim', spec['title'], **pk))
                specs.append(spec)
            pc.write_hdf5_for_imported_list(use_pack = use_pack, expand_const_arrays = expand, use_int32 = use32, **kw)
            pc.create_xml_for_imported_list_and_add_parts_to_model(expand_const_arrays = expand)
            for s in specs:
                st['props'].append(s)
        self.m.store_epc()
        self.c.probe('properties-written')

    def prop_spec(self, r, e, batch = False):
        g = zoo.nprng(r)
        style = r.choice(['cont', 'disc', 'bool', 'bool', 'points', 'vec', 'const'])
        pk = dict(property_kind = 'porosity', uom = 'm3/m3', indexable_element = 'cells', discrete = False)
        dtype, pack, expand = None, False, False
        if style == 'cont':
            arr = g.uniform(0, 1, size = e)
            dtype = r.choice([None, np.float32])
        elif style == 'disc':
            arr = g.randint(-100, 100, size = e)
            dtype = r.choice([None, np.int16, np.int64])
            pk.update(property_kind = 'zone', uom = None, discrete = True)
        elif style == 'bool':
            arr = g.rand(*e) > 0.5
            pk.update(property_kind = 'code', uom = None, discrete = True)
            pack = r.random() < 0.5
        elif style == 'points':
            arr = g.uniform(0, 1, size = e + (3,))
            pk.update(property_kind = 'length', uom = 'm', points = True)
        elif style == 'vec':
            arr = g.uniform(0, 1, size = e + (2,))
            pk.update(property_kind = 'length', uom = 'm', count = 2)
        else:
            arr = None
            pk.update(const_value = round(r.uniform(-3, 3), 2))
            expand = r.random() < 0.5
        spec = dict(title = f'p {r.randrange(10**6)}', style = style, pack = pack, expand = expand, f32 = dtype is np.float32 and not batch,
                    value = np.full(e, pk['const_value']) if arr is None else arr)
        return spec, arr, pk, (None if batch else dtype)

    def op_prop_read(self, r):
        from resqpy.property import Property
        if not self.st['props']:
            return
        s = r.choice(self.st['props'])
        p = Property(self.m, uuid = zoo.U(s['uuid']))
        pc = p.collection
        want = s['value'].astype(np.float32).astype(float) if s['f32'] else s['value']
        how = r.choice(['array', 'array', 'slice', 'shape', 'over', 'collection'])
        what = f'{s["style"]} property {s["title"]} (packed {s["pack"]}) by {how}'
        self.c.probe('property-' + how)
        if how == 'slice' and not s['pack'] and not (s['style'] == 'const' and not s['expand']):
            t = rnd_slice(r, want.shape)
            got = pc.h5_slice(p.part, t)
            check(same(np.asarray(got, dtype = float), want[t].astype(float)), 'property-value', lambda: f'{what} {t}: wrote {zoo.short(want[t])} read {zoo.short(got)}')
            return
        if how == 'shape' and not s['pack']:
            got, dt = pc.shape_and_type_of_part(p.part)
            check(tuple(got) == want.shape, 'property-value', lambda: f'{what}: shape {got} for {want.shape}')
            return
        if how == 'over' and not self.readonly and not s['pack'] and s['style'] in ('cont', 'disc', 'vec', 'points'):
            if r.random() < 0.5:
                p.array_ref()
            t = rnd_slice(r, want.shape)
            b = zoo.nprng(r).randint(0, 50, size = want[t].shape).astype(want.dtype)
            pc.h5_overwrite_slice(p.part, t, b, update_cache = r.random() < 0.5)
            s['value'] = want.copy()
            s['value'][t] = b
            want = s['value']
            got = p.array_ref()
            check(same(np.asarray(got, dtype = float), want.astype(float)), 'property-value', lambda: f'{what} after overwriting {t}: expected {zoo.short(want)} read {zoo.short(got)}')
            return
        got = p.array_ref(dtype = bool) if s['style'] == 'bool' else p.array_ref(dtype = np.float32) if s['f32'] and r.random() < 0.5 else p.array_ref()
        if how == 'collection':
            pc.uncache_part_array(p.part)
            got = p.array_ref(dtype = bool) if s['style'] == 'bool' else p.array_ref()
        check(same(np.asarray(got, dtype = float), want.astype(float)), 'property-value', lambda: f'{what}: wrote {zoo.short(want)} read {zoo.short(got)}')

    def op_fault(self, r):
        """A write with release during which the disk fails: reported, unless all of it is there."""
        import resqpy.olio.uuid as bu
        import resqpy.olio.write_hdf5 as rwh5
        st = self.st
        self.op_release(r)
        f = r.randrange(len(st['files']))
        u = bu.new_uuid()
        arrs = [make_array(r) for _ in range(r.randint(1, 3))]
        if r.random() < 0.3:
            arrs.append(zoo.nprng(r).uniform(size = (40, 60)))
        comp = r.choice([None, None, 'gzip'])
        over = [a for a in st['arrs'] if a.f == f and not a.pack and a.value.dtype != bool]
        over = r.choice(over) if over and r.random() < 0.3 else None
        c = self.c

        def attempt(cc):
            try:
                if over is not None:
                    self.m.h5_overwrite_array(self.key(over), np.ones_like(over.value))
                    self.m.h5_release()
                else:
                    reg = rwh5.H5Register(self.m, default_compression = comp)
                    for i, a in enumerate(arrs):
                        reg.register_dataset(u, f't{i}', a)
                    reg.write(self.fname(f), mode = 'a')
                return None
            except Exception as e:  # noqa
                return type(e).__name__

        b = c.branch('dry')

        def count(cc):
            h = shim.watch(WR, '.h5')
            check(attempt(cc) is None, 'write-failed', 'an undisturbed write failed')
            return shim.seen(h)

        n = core.settle(b.process(count, fresh = False))
        c.merge(b)
        check(n > 0, 'write-did-nothing', 'a write made no I/O at all')
        for i in range(r.randint(2, 4)):
            x = r.random()
            k = r.randrange(n)
            if x < 0.6:
                fl = dict(cls = WR, nth = k, action = 'err', arg = r.choice(['EIO', 'ENOSPC', 'EDQUOT']), repeat = r.choice([1, 1, -1]), suffix = '.h5')
            elif x < 0.8:
                fl = dict(quota = r.randrange(8000))
            else:
                fl = dict(cls = ['write'], nth = k, action = 'short', arg = r.choice([1, 500]), suffix = '.h5')
            b = c.branch(i)
            inc = b.process(attempt, fresh = False, faults = [fl])
            if inc.status == 'died':
                c.probe('hdf5-library-died')  # the HDF5 library itself may crash after an error; at least it is not silent
                c.merge(b)
                continue
            failed = core.settle(inc)
            c.event('write-fault', k, fl.get('action', 'quota'), failed)
            c.state(f'wf:{k}:{fl.get("action")}:{failed}')
            if failed is None:
                c.probe('write-fault-absorbed')
                want = [Arr(f, f'/RESQML/{u}/t{j}', a.astype(np.int32) if a.dtype == np.int64 else a) for j, a in enumerate(arrs)] if over is None else \
                    [Arr(f, over.path, np.ones_like(over.value))]
                rest = [a for a in st['arrs'] if a.f == f and a is not over]
                inc = b.process(compare_file, os.path.join(b.dir, st['files'][f]), want + rest, f'write reported as successful under {fl}')
                core.settle(inc)
            else:
                c.probe('write-fault-reported')
            c.merge(b)

    def compare_raw(self, fn, arrs, what):
        compare_file(self.c, fn, arrs, what, exact = True, but = [p['uuid'] for p in self.st['props']])


def compare_file(c, fn, arrs, what, exact = False, but = ()):
    """Compare a file with what it should hold, using h5py alone."""
    import h5py
    try:
        fp = h5py.File(fn, 'r')
    except OSError as e:
        raise core.Violation('file-unreadable', f'{what}: {e}')
    with fp:
        have = set()
        if exact:
            fp.visititems(lambda n, o: have.add('/' + n) if isinstance(o, h5py.Dataset) else None)
            have = {n for n in have if n.split('/')[2] not in but}
            want = {a.path for a in arrs}
            check(have == want, 'file-content', lambda: f'{what}: datasets {sorted(have ^ want)[:3]} missing or extra')
        for a in arrs:
            try:
                got = fp[a.path][()]
            except Exception as e:  # noqa
                raise core.Violation('file-content', f'{what}: {a.how} array {a.path[-30:]} not readable: {type(e).__name__} {e}')
            w = a.stored()
            if a.pack and w.shape[-1] == 1 and a.value.shape[-1] == 1:
                w, got = w != 0, got != 0
            check(same(got, w) and got.dtype == w.dtype, 'file-content', lambda: f'{what}: {a.how} array holds {zoo.short(got)} instead of {zoo.short(w)}')


class P(SaveProp):
    id = 'C05'
    quick_runs = 1500
    thorough_runs = 9000
    rule = ('one evaluation is one seeded history of processes writing, overwriting, reading, copying and renaming arrays and properties, ending normally or by being killed, some writes meeting disk errors; '
            'distinct by hash of the event log')
    state_measure = 'distinct (way of reading, dtype written and asked for, rank, packing) combinations and (write fault position, kind, outcome) combinations'
    assumptions = ['the HDF5 library crashing (SIGSEGV) after an injected disk error is taken as a report of the error', 'HDF5 itself is trusted while the file system does as it is told; nothing is claimed of a file in which an HDF5 write has failed or was interrupted',
                   'use_int32 is lossless only for values within 32 bits']
    real = SaveProp.real

    def generate(self, rng, index, tier):
        big = tier != 'quick'
        nf = rng.choice([1, 1, 1, 2, 3])
        ss = []
        for _ in range(rng.randint(1, 4 if big else 3)):
            ops = []
            for _ in range(rng.randint(3, 24 if big else 14)):
                k = rng.choice(['write'] * 6 + ['read'] * 8 + ['over'] * 3 + ['release', 'reopen', 'copy', 'copy_paths', 'change_uuid'] + (['prop'] * 3 + ['prop_read'] * 5 if nf == 1 else []))
                ops.append([k, rng.randrange(1 << 30)])
            if rng.random() < 0.25:
                ops.insert(rng.randrange(len(ops) + 1), ['fault', rng.randrange(1 << 30)])
            ss.append(dict(ops = ops, kill = rng.random() < 0.4))
        ss[0]['ops'].insert(0, ['write', rng.randrange(1 << 30)])
        return dict(nfiles = nf, override = rng.choice(['full', 'dir', 'none', 'dir']) if nf == 1 else rng.choice(['dir', 'none']), sessions = ss)

    def shrink_lists(self, plan):
        return [['sessions']] + [['sessions', i, 'ops'] for i in range(len(plan['sessions']))]

    def execute(self, plan, ctx):
        st = None
        for i, s in enumerate(plan['sessions']):
            inc = ctx.process(self.session, plan, st, s)
            if inc.status == 'ok' and inc.acks:
                st = inc.acks[-1]
            else:
                st = core.settle(inc)
            core.settle(ctx.process(self.verify, plan, st))

    def session(self, c, plan, st, s):
        x = Session(c, plan, st)
        for op, seed in s['ops']:
            getattr(x, 'op_' + op)(random.Random(seed))
            c.event(op, len(x.st['arrs']))
        if x.dirty or not s['kill']:
            x.m.h5_release()
        c.probe('killed' if s['kill'] else 'ended')
        return x.st

    def verify(self, c, plan, st):
        """A later process: everything released is as it was left, by h5py alone and through resqpy."""
        for f, fn in enumerate(st['files']):
            arrs = [a for a in st['arrs'] if a.f == f]
            if arrs:
                compare_file(c, fn, arrs, 'file read by a later process')
        x = Session(c, plan, st)
        x.readonly = True
        r = random.Random(len(st['arrs']))
        for a in st['arrs']:
            if r.random() < 0.5:
                x.read(r, a)
        for _ in st['props']:
            x.op_prop_read(random.Random(r.randrange(1 << 30)))
        x.m.h5_release()
        return True


PROP = P()

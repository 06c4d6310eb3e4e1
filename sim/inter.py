"""Interchange formats: for each, values made from a seed, an exporter (of resqpy, or a writer of text of our own where it only has an importer),
the importers, and what they should give."""
import os

import numpy as np

from . import zoo

FMT = {}


def fmt(cls):
    FMT[cls.__name__] = cls()
    return cls


def model(name = 'scratch'):
    import resqpy.crs as rqc
    import resqpy.model as rq
    m = rq.new_model(name + '.epc')
    c = rqc.Crs(m, title = 'crs')
    c.create_xml()
    return m, c


def grid(m, shape, q = 0, **kw):
    import resqpy.grid as rqg
    g = rqg.RegularGrid(m, extent_kji = shape, origin = (100.0, 200.0, 1000.0 + q % 7), dxyz = (10.0, 20.0, 5.0), crs_uuid = m.crs_uuid, title = 'ROOT', set_points_cached = True,
                        **kw)
    g.create_xml(add_cell_length_properties = False)
    return g


def differ(a, b, tol, where = ''):
    """None if b is what a says it should be."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(map(str, a)) != sorted(map(str, b)):
            return f'{where}: {sorted(map(str, b)) if isinstance(b, dict) else b!r} for {sorted(map(str, a))}'
        for k in a:
            d = differ(a[k], b[k], tol, f'{where}.{k}')
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if b is None or len(a) != len(b):
            return f'{where}: {None if b is None else len(b)} items for {len(a)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, tol, f'{where}[{i}]')
            if d:
                return d
        return None
    if a is None or b is None or isinstance(a, str):
        return None if (a is b if a is None or b is None else a == b) else f'{where}: {b!r} for {a!r}'
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return f'{where}: shape {y.shape} for {x.shape}'
    if y.dtype == object:
        return f'{where}: {y!r} for {x!r}'
    if x.dtype.kind in 'ib' and y.dtype.kind in 'ib':
        return None if np.all(x == y) else f'{where}: {zoo.short(y)} for {zoo.short(x)}'
    x, y = x.astype(float), y.astype(float)
    nan = np.isnan(x) == np.isnan(y)
    ok = np.all(nan) and np.all((np.abs(x - y) <= tol * (1.0 + 1.0e-9) + 1.0e-12 * np.abs(x)) | np.isnan(x))
    return None if ok else f'{where}: {zoo.short(y)} for {zoo.short(x)}'


class Fmt:
    own = True  # resqpy writes it
    detects = False  # an importer can tell a file cut short
    caches = False
    weight = 2

    def gen(self, rng):
        return dict(q = rng.randrange(1 << 30))

    def how(self, rng, spec):
        return {}

    def tol(self, spec, how):
        return 1.0e-6

    def failed(self, res):
        return res is None

    def complete(self, spec, how):
        return False


@fmt
class array(Fmt):
    detects = True
    caches = True
    weight = 12

    def gen(self, rng):
        dt = rng.choice(['real', 'real', 'float', 'int', 'integer', 'bool', 'boolean'])
        s = dict(q = rng.randrange(1 << 30), shape = [rng.choice([1, 1, 2, 3, 5, 21]) for _ in range(3)], dt = dt,
                 np = rng.choice({'r': ['f8', 'f8', 'f4'], 'f': ['f8', 'f8', 'f4'], 'i': ['i8', 'i8', 'i4', 'i2'], 'b': ['?', '?', 'i1']}[dt[0]]), headers = rng.random() < 0.6,
                 kw = rng.choice([None, None, 'KH', 'PORO VALUE', 'kx']), columns = rng.choice([1, 2, 7, 20]), decimals = rng.choice([0, 1, 3, 6]), bi = rng.random() < 0.6, bj = rng.random() < 0.4,
                 sp = rng.random() < 0.5, nan = rng.random() < 0.3, sub = rng.choice([None, None, -999.0, 0.0]))
        x = rng.random()
        s['bin'], s['only'] = x < 0.5, x < 0.12
        return s

    def values(self, s):
        r = np.random.default_rng(s['q'])
        if s['dt'][0] in 'rf':
            a = np.round(r.normal(size = s['shape']) * 10.0**r.integers(0, 4), 6).astype(s['np'])
            if s['nan']:
                a[r.random(size = s['shape']) < 0.2] = np.nan
            return a
        if s['dt'][0] == 'i':
            return r.integers(-30000, 30000, size = s['shape']).astype(s['np'])
        return (r.random(size = s['shape']) < 0.5).astype(s['np'])

    def export(self, s, path):
        import resqpy.olio.write_data as wd
        wd.write_array_to_ascii_file(path, s['shape'], self.values(s), headers = s['headers'], keyword = s['kw'], columns = s['columns'], data_type = s['dt'], decimals = s['decimals'],
                                     blank_line_after_i_block = s['bi'], blank_line_after_j_block = s['bj'], space_separated = s['sp'], use_binary = s['bin'], binary_only = s['only'],
                                     nan_substitute_value = s['sub'] if s['dt'][0] in 'rf' else None)

    def how(self, rng, s):
        return dict(bin = s['only'] or rng.random() < 0.6, extent = rng.random() < 0.6, comment = rng.choice([None, '!']), named = rng.random() < 0.15,
                    free = not s['headers'] and s['kw'] is None and rng.random() < 0.4)

    def load(self, s, path, how):
        import resqpy.olio.load_data as ld
        named = how['named'] and how['bin']  # by the name of its binary form
        ext = {'r': '.db', 'f': '.db', 'i': '.lb', 'b': '.bb'}[s['dt'][0]]
        a = ld.load_array_from_file(path + (ext if named else ''), extent = s['shape'] if how['extent'] else None, data_type = s['dt'], keyword = s['kw'].split()[0] if s['kw'] else None,
                                    comment_char = how['comment'], data_free_of_comments = how['free'], use_binary = how['bin'])
        return a

    def want(self, s, how):
        a = self.values(s)
        if s['sub'] is not None and s['dt'][0] in 'rf':
            a = np.where(np.isnan(a), s['sub'], a)
        if s['dt'][0] == 'b':
            a = a.astype(bool)
        return a if how['extent'] else a.flatten()

    def tol(self, s, how):
        return 0.5 * 10.0**-s['decimals'] + 1.0e-6 if s['dt'][0] in 'rf' else 0

    def complete(self, s, how):
        return how['extent']  # a file cut short is told from a whole one


@fmt
class props(Fmt):
    """A collection of grid properties, one file for each."""
    caches = True
    detects = True
    weight = 6

    def gen(self, rng):
        n = rng.randint(1, 3)
        return dict(q = rng.randrange(1 << 30), shape = [rng.randint(1, 4) for _ in range(3)], bin = rng.random() < 0.6, only = rng.random() < 0.2, kw = rng.random() < 0.2,
                    decimals = rng.choice([2, 3, 5]), f32 = rng.random() < 0.5,
                    ps = [dict(t = f'p{i} {rng.choice(["one", "x y", "KX"])}', disc = rng.random() < 0.3, facet = rng.choice([None, None, 'I']), real = rng.choice([None, 3]),
                               nan = rng.random() < 0.3) for i in range(n)])

    def values(self, s):
        r = np.random.default_rng(s['q'])
        out = []
        for p in s['ps']:
            if p['disc']:
                out.append(r.integers(-5, 1000, size = s['shape']))
            else:
                a = np.round(r.normal(size = s['shape']) * 100.0, 4)
                if p['nan']:
                    a[r.random(size = s['shape']) < 0.3] = np.nan
                out.append(a)
        return out

    def names(self, s):
        out = []
        for p in s['ps']:
            n = p['t'].replace(' ', '_')
            if p['facet'] and not p['disc']:
                n += '_direction_' + p['facet']
            if p['real'] is not None:
                n += f'_r_{p["real"]}'
            out.append(n)
        return out

    def export(self, s, path):
        import resqpy.property as rqp
        m, _ = model()
        g = grid(m, s['shape'])
        pc = rqp.GridPropertyCollection()
        pc.set_grid(g)
        for p, a in zip(s['ps'], self.values(s)):
            pc.add_cached_array_to_imported_list(a.astype('f4' if s['f32'] else 'f8') if not p['disc'] else a.astype('i4' if s['f32'] else 'i8'), 'test', p['t'], discrete = p['disc'],
                                                 uom = None if p['disc'] else 'mD', property_kind = 'discrete' if p['disc'] else 'permeability rock', realization = p['real'],
                                                 facet_type = 'direction' if p['facet'] and not p['disc'] else None, facet = p['facet'] if not p['disc'] else None)
        m.h5_release()
        pc.write_hdf5_for_imported_list(use_int32 = False)
        pc.create_xml_for_imported_list_and_add_parts_to_model()
        os.makedirs(path, exist_ok = True)
        pc.write_nexus_collection(path, use_title_for_keyword = s['kw'], decimals = s['decimals'], use_binary = s['bin'], binary_only = s['only'], nan_substitute_value = -1.0)

    def how(self, rng, s):
        return dict(bin = (s['bin'] and s['only']) or rng.random() < 0.6, ab = s['bin'] and rng.random() < 0.3)

    def load(self, s, path, how):
        import resqpy.property as rqp
        m, _ = model('other')
        g = grid(m, s['shape'])
        pc = rqp.GridPropertyCollection()
        pc.set_grid(g)
        out = []
        for p, n in zip(s['ps'], self.names(s)):
            f = os.path.join(path, n)
            if how['ab']:
                a = pc.import_ab_property_to_cache(f + ('.lb' if p['disc'] else '.db'), p['t'], discrete = p['disc'], uom = 'mD', property_kind = 'permeability rock')
            elif s['kw']:
                import resqpy.olio.load_data as ld
                a = ld.load_array_from_file(f, s['shape'], data_type = 'int' if p['disc'] else 'real', keyword = p['t'].replace(' ', '_'), use_binary = how['bin'])
            else:
                a = pc.import_nexus_property_to_cache(f, p['t'], discrete = p['disc'], uom = 'mD', property_kind = 'permeability rock', use_binary = how['bin'])
            if a is None:
                return None
            out.append(a)
        return out

    def want(self, s, how):
        return [a if p['disc'] else np.where(np.isnan(a), -1.0, a) for p, a in zip(s['ps'], self.values(s))]

    def tol(self, s, how):
        return 0.5 * 10.0**-s['decimals'] + 1.0e-3 * s['f32']

    def complete(self, s, how):
        return True


def corner_points(s):
    """Of a grid with a fault throw and sloping layers."""
    r = np.random.default_rng(s['q'])
    nk, nj, ni = s['shape']
    cp = np.zeros((nk, nj, ni, 2, 2, 2, 3))
    dx, dy, dz = r.uniform(5.0, 50.0), r.uniform(5.0, 50.0), r.uniform(1.0, 9.0)
    k, j, i, kp, jp, ip = np.meshgrid(*[np.arange(n) for n in (nk, nj, ni, 2, 2, 2)], indexing = 'ij')
    cp[..., 0] = 1000.0 + (i + ip) * dx
    cp[..., 1] = 2000.0 + (j + jp) * dy
    cp[..., 2] = 3000.0 + (k + kp) * dz + (i + ip) * r.uniform(0.0, 0.9) + (j + jp) * r.uniform(0.0, 0.9)
    if s.get('throw') and ni > 1:
        cp[:, :, r.integers(1, ni):, ..., 2] += np.round(r.uniform(0.5, 2.0) * dz, 3)
    return np.round(cp, 3)


@fmt
class corp(Fmt):
    detects = True
    caches = True
    weight = 5

    def gen(self, rng):
        x = rng.random()
        return dict(q = rng.randrange(1 << 30), shape = [rng.randint(1, 3), rng.randint(2, 4), rng.randint(2, 4)], throw = rng.random() < 0.5, local = rng.random() < 0.5, bin = x < 0.4,
                    only = x < 0.1, nxyz = rng.random() < 0.3, units = rng.random() < 0.3, kw = rng.random() < 0.5, ft = rng.random() < 0.3)

    def export(self, s, path):
        import resqpy.grid as rqg
        import resqpy.olio.grid_functions as gf
        import resqpy.rq_import as rqi
        m, c = model()
        g = rqi.grid_from_cp(m, corner_points(s), c.uuid, split_pillars = True, ijk_handedness = 'right')
        g.write_hdf5()
        g.create_xml()
        g = rqg.Grid(m, uuid = g.uuid)
        g.write_nexus_corp(path, local_coords = s['local'], use_binary = s['bin'], binary_only = s['only'], write_nx_ny_nz = s['nxyz'] and s['kw'], write_units_keyword = s['units'] and s['kw'],
                           write_corp_keyword = s['kw'], nexus_unit_system = 'ENGLISH' if s['ft'] else None)

    def how(self, rng, s):
        return dict(bin = (s['bin'] and s['only']) or rng.random() < 0.5, extent = rng.random() < 0.7 or min(s['shape']) < 2)

    def load(self, s, path, how):
        import resqpy.olio.load_data as ld
        return ld.load_corp_array_from_file(path, extent_kji = s['shape'] if how['extent'] else None, use_binary = how['bin'])

    def want(self, s, how):
        a = corner_points(s)
        return a / 0.3048 if s['ft'] else a

    def tol(self, s, how):
        return 0.011 + 0.0006 * (1 + 3 * s['ft'])  # points closer than the split tolerance are merged

    def complete(self, s, how):
        return how['extent']


@fmt
class nexus(Fmt):
    """A whole model imported from corner points and property files."""
    own = False
    caches = True
    detects = True
    weight = 4

    def gen(self, rng):
        return dict(q = rng.randrange(1 << 30), shape = [rng.randint(1, 3), rng.randint(2, 4), rng.randint(2, 4)], throw = rng.random() < 0.5, n = rng.randint(0, 3), act = rng.random() < 0.5,
                    ab = rng.random() < 0.3, set = rng.random() < 0.4, local = rng.random() < 0.4)

    def parts(self, s):
        r = np.random.default_rng(s['q'] + 1)
        out = []
        for i in range(s['n']):
            disc = bool(r.integers(0, 2))
            a = r.integers(0, 50, size = s['shape']) if disc else np.round(r.uniform(0.0, 1.0, size = s['shape']), 4)
            out.append((f'P{i}', disc, a))
        act = r.random(size = s['shape']) < 0.8
        act.flat[0] = True
        return out, act

    def export(self, s, path):
        import resqpy.olio.grid_functions as gf
        cp = corner_points(s).copy()
        gf.resequence_nexus_corp(cp, undo = True)
        out, act = self.parts(s)
        os.makedirs(path, exist_ok = True)
        with open(f'{path}/corp', 'w') as f:
            f.write('! corner points\n\n')
            for row in cp.reshape(-1, 3):
                f.write('\t'.join(f'{v:.3f}' for v in row) + '\n')
        for t, disc, a in out:
            if s['ab']:
                with open(f'{path}/{t}' + ('.lb' if disc else '.db'), 'wb') as f:
                    f.write(a.tobytes())
            else:
                with open(f'{path}/{t}', 'w') as f:
                    f.write('! ' + t + '\n\n' + '\n'.join(str(v) for v in a.flatten()) + '\n')
        with open(f'{path}/act', 'w') as f:
            f.write('\n'.join(str(int(v)) for v in act.flatten()) + '\n')

    def how(self, rng, s):
        return dict(bin = rng.random() < 0.5)

    def load(self, s, path, how):
        import resqpy.rq_import as rqi
        import resqpy.model as rq
        import resqpy.grid as rqg
        out, act = self.parts(s)
        kw = {}
        if s['ab']:
            kw['ab_property_list'] = [(f'{path}/{t}' + ('.lb' if disc else '.db'), t, None, None, None, None, None, None, disc) for t, disc, _ in out]
        else:
            kw['property_array_files'] = [(f'{path}/{t}', t, None, None, None, disc) for t, disc, _ in out]
        rqi.import_nexus('imp', extent_ijk = s['shape'][::-1], corp_file = f'{path}/corp', active_mask_file = f'{path}/act' if s['act'] else None, use_binary = how['bin'],
                         create_property_set = s['set'], shift_to_local = s['local'], **kw)
        m = rq.Model('imp.epc')
        g = m.grid()
        res = dict(cp = g.local_to_global_crs(g.corner_points().copy(), crs_uuid = g.crs_uuid))
        pc = g.extract_property_collection()
        for t, disc, a in out:
            ps = pc.parts() if pc is not None else []
            ps = [p for p in ps if pc.citation_title_for_part(p) == t]
            if not ps:
                return None  # a property which cannot be read is left out
            if len(ps) != 1:
                return dict(bad = f'{len(ps)} properties {t}')
            res[t] = pc.cached_part_array_ref(ps[0])
            res[t + ' kind'] = 'disc' if not pc.continuous_for_part(ps[0]) else 'cont'
        if s['act']:
            res['act'] = ~g.extract_inactive_mask().astype(bool)
        return res

    def want(self, s, how):
        out, act = self.parts(s)
        w = dict(cp = corner_points(s))
        for t, disc, a in out:
            w[t] = a
            w[t + ' kind'] = 'disc' if disc else 'cont'
        if s['act']:
            w['act'] = act
        return w

    def tol(self, s, how):
        return 0.0111

    def complete(self, s, how):
        return True


def faces(s):
    """Faults of a grid: list of (name, face, multiplier by cell), with faces named from the cell on their minus side."""
    r = np.random.default_rng(s['q'])
    nk, nj, ni = s['shape']
    taken, out = set(), []
    for n in range(s['n']):
        d = {}
        for axis in r.permutation(3)[:r.integers(1, 3)]:
            hi = list(s['shape'])
            hi[axis] -= 1
            if hi[axis] < 1:
                continue
            fixed = int(r.integers(0, hi[axis]))
            for kji in np.ndindex(*hi):
                if kji[axis] == fixed and r.random() < 0.7 and (int(axis), kji) not in taken:
                    taken.add((int(axis), kji))
                    d[int(axis), kji] = 1.0
        if s['mult'] == 'face':
            for k in d:
                d[k] = float(np.round(r.choice([0.0, 0.1, 0.25, 1.0]), 4))
        elif s['mult'] == 'fault':
            v = float(np.round(r.uniform(0.0, 1.0), 4))
            d = {k: v for k in d}
        if d:
            out.append((f'F{n}' if r.random() < 0.7 else f'fault_{n}', d))
    return out


class _faults(Fmt):
    weight = 3

    def gen(self, rng):
        return dict(q = rng.randrange(1 << 30), shape = [rng.randint(1, 4) for _ in range(3)], n = rng.randint(1, 3), mult = rng.choice(['one', 'fault', 'face', 'face']),
                    side = rng.choice(['plus', 'minus', 'both']))

    def how(self, rng, s):
        return dict(gcs = rng.random() < 0.5)

    def load(self, s, path, how):
        import resqpy.olio.read_nexus_fault as rnf
        if how['gcs'] and faces(s):
            import resqpy.fault as rqf
            m, _ = model('other')
            g = grid(m, s['shape'])
            o = rqf.GridConnectionSet(m, grid = g, ascii_load_format = 'nexus', ascii_file = path, create_organizing_objects_where_needed = True, create_transmissibility_multiplier_property = True)
            o.write_hdf5()
            o.create_xml(write_new_properties = True)
            pc = o.extract_property_collection()
            ps = pc.parts()
            if len(ps) != 1:
                return dict(bad = f'{len(ps)} multiplier properties')
            a = pc.cached_part_array_ref(ps[0])
            out = {}
            for f in range(o.number_of_features()):
                name = o.fault_name_for_feature_index(f)
                idx = o.indices_for_feature_index(f)
                cells, fc = o.list_of_cell_face_pairs_for_feature_index(f)
                d = out.setdefault(name.upper(), {})
                for n in range(len(cells)):
                    axis, pol = [int(x) for x in fc[n, 0]]
                    d.setdefault(self.key(axis, pol, [int(x) for x in cells[n, 0]]), []).append(float(a[idx[n]]))
            return {k: {str(f): sorted(v) for f, v in d.items()} for k, d in out.items()}
        df = rnf.load_nexus_fault_mult_table(path)
        out = {}
        for _, x in df.iterrows():
            axis, pol = 'KJI'.index(x['face'][0]), 0 if x['face'].endswith('-') else 1
            d = out.setdefault(x['name'].upper(), {})
            for k in range(x['k1'], x['k2'] + 1):
                for j in range(x['j1'], x['j2'] + 1):
                    for i in range(x['i1'], x['i2'] + 1):
                        d.setdefault(self.key(axis, pol, [k - 1, j - 1, i - 1]), []).append(float(x['mult']))
        return {k: {str(f): sorted(v) for f, v in d.items()} for k, d in out.items()}

    def key(self, axis, pol, kji):
        if not pol:
            kji = list(kji)
            kji[axis] -= 1
        return axis, tuple(kji)

    def want(self, s, how):
        n = 2 if s['side'] == 'both' else 1
        return {t.upper(): {str(f): [v] * n for f, v in d.items()} for t, d in faces(s)}

    def tol(self, s, how):
        return 0.00006


@fmt
class faults(_faults):
    weight = 4

    def export(self, s, path):
        import resqpy.fault as rqf
        m, _ = model()
        g = grid(m, s['shape'])
        o, vals = None, []
        for t, d in faces(s):
            nk, nj, ni = s['shape']
            masks = [np.zeros((max(nk - 1, 0), nj, ni), bool), np.zeros((nk, max(nj - 1, 0), ni), bool), np.zeros((nk, nj, max(ni - 1, 0)), bool)]
            for axis, kji in d:
                masks[axis][kji] = True
            p = rqf.GridConnectionSet(m, grid = g, k_faces = masks[0] if nk > 1 else None, j_faces = masks[1] if nj > 1 else None, i_faces = masks[2] if ni > 1 else None, feature_name = t,
                                      create_organizing_objects_where_needed = True)
            if o is None:
                o = p
            else:
                o.append(p)
        if o is None:
            open(path, 'w').close()
            return
        o.write_hdf5()
        o.create_xml()
        u = None
        if s['mult'] != 'one':
            by = [d for _, d in faces(s)]
            for n in range(o.count):
                c = [int(x) for x in o.grid_list[0].denaturalized_cell_index(o.cell_index_pairs[n, 0])]
                axis, pol = [int(x) for x in o.face_index_inverse_map[o.face_index_pairs[n, 0]]]
                vals.append(by[int(o.feature_indices[n])][self.key(axis, pol, c)])
            pc = o.extract_property_collection()
            pc.add_cached_array_to_imported_list(np.array(vals), 'test', 'TM', uom = 'Euc', property_kind = 'transmissibility multiplier', indexable_element = 'faces')
            pc.write_hdf5_for_imported_list()
            u = pc.create_xml_for_imported_list_and_add_parts_to_model()[0]
        o.write_simulator(path, mode = 'w', include_both_sides = s['side'] == 'both', use_minus = s['side'] == 'minus', trans_mult_uuid = u)


@fmt
class faults_text(_faults):
    own = False

    def export(self, s, path):
        r = np.random.default_rng(s['q'] + 3)
        with open(path, 'w') as f:
            f.write('! faults\n\n')
            for t, d in faces(s):
                rows = {}
                for (axis, kji), v in d.items():
                    for pol in ([1, 0] if s['side'] == 'both' else [1] if s['side'] == 'plus' else [0]):
                        c = list(kji)
                        c[axis] += 1 - pol
                        rows.setdefault((axis, pol), []).append((c, v))
                for (axis, pol), rs in rows.items():
                    f.write(f'MULT\t{["TZ", "TY", "TX"][axis]}\tALL\t{["MINUS", "PLUS"][pol]}\tMULT\n\tGRID\tROOT\n\tFNAME\t{t}\n')
                    for n in r.permutation(len(rs)):
                        (k, j, i), v = rs[n]
                        f.write(f'\t{i + 1}\t{i + 1}\t{j + 1}\t{j + 1}\t{k + 1}\t{k + 1}\t{v:.4f}' + ('  ! remark' if r.random() < 0.1 else '') + '\n')
                        if r.random() < 0.1:
                            f.write('! remark\n')


def lines(s):
    r = np.random.default_rng(s['q'])
    return [np.round(r.uniform(-5000.0, 5000.0, size = (n, 3)), s.get('dp', 4)) for n in s['n']]


class _polylines(Fmt):

    def gen(self, rng):
        return dict(q = rng.randrange(1 << 30), n = [rng.choice([2, 2, 3, 5, 9]) for _ in range(rng.randint(1, 4))], title = rng.choice(['f', 'a fault', 'x_y']), same = rng.random() < 0.15)

    def coords(self, s):
        ls = lines(s)
        if s['same'] and len(ls) > 1:
            ls[-1] = ls[0].copy()
        return ls

    def set(self, s):
        import resqpy.lines as rql
        m, c = model()
        ps = [rql.Polyline(m, set_coord = a, set_crs = c.uuid, is_closed = False, title = f'l{i}') for i, a in enumerate(self.coords(s))]
        return rql.PolylineSet(m, polylines = ps, title = s['title'])

    def got(self, o):
        return [p.coordinates for p in o.polys]

    def want(self, s, how):
        return self.coords(s)


@fmt
class irap_lines(_polylines):

    def export(self, s, path):
        self.set(s).convert_to_irap(path)

    def load(self, s, path, how):
        import resqpy.lines as rql
        m, c = model('other')
        return self.got(rql.PolylineSet(m, irap_file = path, crs_uuid = c.uuid))


@fmt
class charisma_lines(_polylines):

    def export(self, s, path):
        self.set(s).convert_to_charisma(path)

    def load(self, s, path, how):
        import resqpy.lines as rql
        m, c = model('other')
        return self.got(rql.PolylineSet(m, charisma_file = path, crs_uuid = c.uuid))


@fmt
class simple_lines(_polylines):
    own = False

    def export(self, s, path):
        with open(path, 'w') as f:
            for a in self.coords(s):
                for p in a:
                    f.write(f' {p[0]}  {p[1]:.4f}\t{p[2]}\n' + ('\n' if s['same'] else ''))
                f.write('999.0 999.0 999.0\n')

    def load(self, s, path, how):
        import resqpy.olio.simple_lines as sl
        return sl.read_lines(path)

    def failed(self, res):
        return not res


class _points(Fmt):

    def gen(self, rng):
        return dict(q = rng.randrange(1 << 30), n = [rng.choice([1, 2, 3, 9]) for _ in range(rng.randint(1, 3))])

    def set(self, s):
        import resqpy.surface as rqs
        m, c = model()
        o = rqs.PointSet(m, crs_uuid = c.uuid, title = 'points')
        for a in lines(s):
            o.add_patch(a)
        return o

    def want(self, s, how):
        return np.concatenate(lines(s))


@fmt
class irap_points(_points):

    def export(self, s, path):
        self.set(s).convert_to_irap(path)

    def load(self, s, path, how):
        import resqpy.surface as rqs
        m, c = model('other')
        return rqs.PointSet(m, irap_file = path, crs_uuid = c.uuid).full_array_ref()


@fmt
class charisma_points(_points):

    def export(self, s, path):
        self.set(s).convert_to_charisma(path)

    def load(self, s, path, how):
        import resqpy.surface as rqs
        m, c = model('other')
        return rqs.PointSet(m, charisma_file = path, crs_uuid = c.uuid).full_array_ref()


@fmt
class relperm(Fmt):

    def gen(self, rng):
        return dict(q = rng.randrange(1 << 30), tables = [dict(combo = rng.choice(['water-oil', 'gas-oil', 'gas-water']), n = rng.randint(2, 6), pc = rng.choice([None, 'all', 'some', 'tail']), low = rng.random() < 0.3)
                                                          for _ in range(rng.randint(1, 3))])

    def frames(self, s):
        import pandas as pd
        r = np.random.default_rng(s['q'])
        out = []
        for t in s['tables']:
            sat = np.sort(np.round(r.uniform(0.0, 1.0, size = t['n']), 4))
            up, down = np.sort(np.round(r.uniform(0.0, 1.0, size = t['n']), 4)), np.sort(np.round(r.uniform(0.0, 1.0, size = t['n']), 4))[::-1]
            c = {'water-oil': ('Sw', 'Krw', 'Kro'), 'gas-oil': ('Sg', 'Krg', 'Kro'), 'gas-water': ('Sg', 'Krg', 'Krw')}[t['combo']]
            d = {c[0]: sat, c[1]: up, c[2]: down}
            if t['pc']:
                pc = np.sort(np.round(r.uniform(-5.0, 5.0, size = t['n']), 3))
                if t['pc'] == 'some':
                    pc[r.integers(0, t['n'])] = np.nan
                if t['pc'] == 'tail':
                    pc[-1] = np.nan
                d['Pc'] = pc
            out.append(pd.DataFrame(d))
        return out

    def export(self, s, path):
        import resqpy.olio.relperm as rqr
        m, _ = model()
        if os.path.exists(path + '.dat'):
            os.remove(path + '.dat')
        for i, (t, df) in enumerate(zip(s['tables'], self.frames(s))):
            o = rqr.RelPerm(m, df = df.copy(), phase_combo = t['combo'], low_sal = t['low'], table_index = i + 1, title = f'rp{i}')
            o.df_to_text(os.path.dirname(path), os.path.basename(path))

    def load(self, s, path, how):
        import resqpy.olio.relperm as rqr
        d = rqr.text_to_relperm_dict(path + '.dat')
        return [dict(combo = d[k]['phase_combo'], df = {c: d[k]['df'][c].to_numpy(dtype = float) for c in d[k]['df'].columns}) for k in sorted(d, key = lambda k: int(k[len('relperm_table'):]))]

    def want(self, s, how):
        return [dict(combo = t['combo'], df = {c: df[c].to_numpy() for c in df.columns}) for t, df in zip(s['tables'], self.frames(s))]


@fmt
class trajectory(Fmt):

    def gen(self, rng):
        return dict(q = rng.randrange(1 << 30), n = rng.randint(2, 12), space = rng.random() < 0.5, cols = rng.choice([['MD', 'X', 'Y', 'Z'], ['md', 'east', 'north', 'tvd']]))

    def arrays(self, s):
        r = np.random.default_rng(s['q'])
        md = np.cumsum(np.round(r.uniform(1.0, 50.0, size = s['n']), 3))
        return md, np.round(np.cumsum(r.uniform(0.0, 30.0, size = (s['n'], 3)), axis = 0) + 4000.0, 3)

    def export(self, s, path):
        import resqpy.well as rqw
        m, c = model()
        md, xyz = self.arrays(s)
        d = rqw.MdDatum(m, crs_uuid = c.uuid, location = xyz[0], title = 'd')
        d.create_xml()
        import pandas as pd
        df = pd.DataFrame({'MD': md, 'X': xyz[:, 0], 'Y': xyz[:, 1], 'Z': xyz[:, 2]})
        t = rqw.Trajectory(m, md_datum = d, data_frame = df, length_uom = 'm', well_name = 'w')
        t.write_to_ascii_file(path, space_separated_instead_of_csv = s['space'], **dict(zip(('md_col', 'x_col', 'y_col', 'z_col'), s['cols'])))

    def load(self, s, path, how):
        import resqpy.well as rqw
        m, c = model('other')
        d = rqw.MdDatum(m, crs_uuid = c.uuid, location = (0.0, 0.0, 0.0), title = 'd')
        d.create_xml()
        t = rqw.Trajectory(m, md_datum = d, well_name = 'w')
        t.load_from_ascii_file(path, space_separated_instead_of_csv = s['space'], md_datum = d, **dict(zip(('md_col', 'x_col', 'y_col', 'z_col'), s['cols'])))
        return dict(md = t.measured_depths, xyz = t.control_points, n = t.knot_count)

    def want(self, s, how):
        md, xyz = self.arrays(s)
        return dict(md = md, xyz = xyz, n = s['n'])


@fmt
class survey(Fmt):
    own = False

    def gen(self, rng):
        return dict(q = rng.randrange(1 << 30), n = rng.randint(2, 9), space = rng.random() < 0.5)

    def arrays(self, s):
        r = np.random.default_rng(s['q'])
        return np.round(np.cumsum(r.uniform(1.0, 50.0, size = s['n'])), 3), np.round(r.uniform(0.0, 359.0, size = s['n']), 3), np.round(r.uniform(0.0, 90.0, size = s['n']), 3), np.round(
            r.uniform(0.0, 5000.0, size = 3), 3)

    def export(self, s, path):
        md, az, inc, p = self.arrays(s)
        sep = ' ' if s['space'] else ','
        with open(path, 'w') as f:
            f.write('# survey\n' + sep.join(['MD', 'X', 'Y', 'Z', 'AZIM_GN', 'INCL']) + '\n')
            for i in range(s['n']):
                f.write(sep.join(str(v) for v in (md[i], p[0] + i, p[1] + i, p[2] + i, az[i], inc[i])) + ('  # remark' if i % 3 == 1 else '') + '\n')

    def load(self, s, path, how):
        import resqpy.well as rqw
        m, c = model('other')
        d = rqw.MdDatum(m, crs_uuid = c.uuid, location = (0.0, 0.0, 0.0), title = 'd')
        d.create_xml()
        o = rqw.DeviationSurvey.from_ascii_file(m, path, md_datum = d, space_separated_instead_of_csv = s['space'])
        return dict(md = o.measured_depths, az = o.azimuths, inc = o.inclinations, p = np.array(o.first_station), n = o.station_count)

    def want(self, s, how):
        md, az, inc, p = self.arrays(s)
        return dict(md = md, az = az, inc = inc, p = p, n = s['n'])


@fmt
class wellspec(Fmt):
    """Blocked wells appended to one file."""
    weight = 3

    def gen(self, rng):
        return dict(q = rng.randrange(1 << 30), shape = [rng.randint(1, 4), rng.randint(2, 5), rng.randint(2, 5)],
                    wells = [dict(name = rng.choice(['W{}', 'WELL_{}', 'p{}']).format(i), ji = [rng.randrange(99), rng.randrange(99)], tab = rng.random() < 0.5,
                                  extra = sorted(rng.sample(['RADW', 'SKIN', 'ANGLV', 'LENGTH', 'DEPTH', 'MD', 'STAT', 'X', 'Y', 'PPERF'], rng.randint(0, 4))), blank = rng.randint(0, 2), radw = rng.choice([0.1, 0.25]))
                             for i in range(rng.randint(1, 3))])

    def export(self, s, path):
        import resqpy.well as rqw
        m, c = model()
        g = grid(m, s['shape'])
        if os.path.exists(path):
            os.remove(path)
        for w in s['wells']:
            j, i = w['ji'][0] % s['shape'][1], w['ji'][1] % s['shape'][2]
            b = rqw.BlockedWell(m, grid = g, column_ji0 = (j, i), well_name = w['name'], use_face_centres = True)
            b.write_wellspec(path, extra_columns_list = w['extra'], radw = w['radw'] if 'RADW' in w['extra'] else None, skin = 0.5 if 'SKIN' in w['extra'] else None, stat = 'ON' if 'STAT' in w['extra'] else None,
                             write_nexus_units = len(s['wells']) == 1, space_instead_of_tab_separator = not w['tab'], preceeding_blank_lines = w['blank'],
                             trailing_blank_lines = 1, length_uom = 'm')

    def how(self, rng, s):
        return dict(cols = rng.choice([[], ['IW', 'JW', 'L']]), one = rng.random() < 0.4)

    def load(self, s, path, how):
        import resqpy.olio.wellspec_keywords as wsk
        out = {}
        if how['one']:
            for w in s['wells']:
                out.update(wsk.load_wellspecs(path, well = w['name'], column_list = how['cols']))
        else:
            out = wsk.load_wellspecs(path, column_list = how['cols'])
        return {k: {c: d[c].to_numpy() for c in d.columns} for k, d in out.items()}

    def want(self, s, how):
        nk = s['shape'][0]
        z0, out = 1000.0, {}
        for w in s['wells']:
            j, i = w['ji'][0] % s['shape'][1], w['ji'][1] % s['shape'][2]
            z = z0 + 5.0 * np.arange(nk) + 2.5
            full = dict(RADW = np.full(nk, w['radw']), SKIN = np.full(nk, 0.5), ANGLV = np.zeros(nk), LENGTH = np.full(nk, 5.0), DEPTH = z, MD = z, STAT = np.ones(nk, int),
                        X = np.full(nk, 100.0 + 10.0 * i + 5.0), Y = np.full(nk, 200.0 + 20.0 * j + 10.0), PPERF = np.ones(nk))
            d = dict(IW = np.full(nk, i + 1), JW = np.full(nk, j + 1), L = np.arange(nk) + 1)
            if not how['cols']:
                for e in w['extra']:
                    d[e] = full[e]
            out[w['name']] = d
        return out

    def tol(self, s, how):
        return 0.00051


@fmt
class wellspec_text(Fmt):
    """Deck of well specifications at several times."""
    own = False
    weight = 4

    def gen(self, rng):
        wells = [rng.choice(['W{}', 'well_{}', 'P-{}']).format(i) for i in range(rng.randint(1, 3))]
        ev, t = [], 0
        for i in range(rng.randint(1, 6)):
            if rng.random() < 0.4:
                t += rng.randint(1, 40)
                ev.append(('time', t))
            ev.append(('well', rng.randrange(len(wells)), rng.randint(1, 4)))
        if not any(e[0] == 'well' for e in ev):
            ev.append(('well', 0, 2))
        return dict(q = rng.randrange(1 << 30), wells = wells, ev = ev, usa = rng.random() < 0.4, dup = rng.random() < 0.3, na = rng.random() < 0.3)

    def events(self, s):
        import datetime
        r = np.random.default_rng(s['q'])
        out, now = [], None
        for e in s['ev']:
            if e[0] == 'time':
                now = datetime.date(2020, 1, 1) + datetime.timedelta(days = e[1])
                out.append(('time', now))
                continue
            n = e[2]
            d = dict(IW = r.integers(1, 9, size = n), JW = r.integers(1, 9, size = n), L = np.arange(n) + 1, RADW = np.round(r.uniform(0.1, 0.5, size = n), 3), SKIN = np.round(r.normal(size = n), 3),
                     STAT = r.integers(0, 2, size = n))
            if s['na']:
                d['SKIN'][r.random(n) < 0.4] = np.nan
            if s['dup'] and n > 1:
                for c in ('IW', 'JW', 'L'):
                    d[c][-1] = d[c][0]
            out.append(('well', s['wells'][e[1]], d, now.isoformat() if now else None))
        return out

    def export(self, s, path):
        r = np.random.default_rng(s['q'] + 5)
        with open(path, 'w') as f:
            f.write('! deck\n')
            for e in self.events(s):
                if r.random() < 0.3:
                    f.write('\n! remark\n')
                if e[0] == 'time':
                    f.write('TIME ' + e[1].strftime('%m/%d/%Y' if s['usa'] else '%d/%m/%Y') + ('(12:00:00)' if r.random() < 0.2 else '') + '\n')
                    continue
                d = e[2]
                f.write(f'WELLSPEC {e[1]}\n\n' + '  '.join(d) + '\n')
                for i in range(len(d['L'])):
                    f.write('\t'.join(['OFF', 'ON'][d[c][i]] if c == 'STAT' else 'NA' if c == 'SKIN' and np.isnan(d[c][i]) else str(d[c][i]) for c in d) + ('  ! remark' if r.random() < 0.2 else '') + '\n')
                f.write('\n')

    def how(self, rng, s):
        return dict(last = rng.random() < 0.5, keep = rng.random() < 0.5, cols = rng.choice([[], ['IW', 'JW', 'L', 'SKIN'], ['L', 'STAT', 'IW', 'JW']]), one = rng.random() < 0.4)

    def load(self, s, path, how):
        import resqpy.olio.wellspec_keywords as wsk
        kw = dict(column_list = how['cols'], keep_duplicate_cells = how['keep'], last_data_only = how['last'], usa_date_format = s['usa'], return_dates_list = True)
        if how['one']:
            out = {}
            for w in s['wells']:
                if any(e[0] == 'well' and e[1] == w for e in self.events(s)):
                    d, dates = wsk.load_wellspecs(path, well = w, **kw)
                    out.update(d)
        else:
            out, dates = wsk.load_wellspecs(path, **kw)
        return dict(dates = list(dates), wells = {k: {c: (d[c].to_numpy() if c != 'DATE' else [x if isinstance(x, str) else None for x in d[c]]) for c in d.columns} for k, d in out.items()})

    def want(self, s, how):
        ev = [e for e in self.events(s) if e[0] == 'well']
        out = {}
        for w in s['wells']:
            mine = [e for e in ev if e[1] == w]
            if not mine:
                continue
            if how['last']:
                mine = mine[-1:]
            cols = how['cols'] or list(mine[0][2])
            d = {c: [] for c in cols}
            dates = []
            for e in mine:
                n = len(e[2]['L'])
                keep = list(range(n))
                if not how['keep']:
                    keys = [(e[2]['IW'][i], e[2]['JW'][i], e[2]['L'][i]) for i in range(n)]
                    keep = [i for i in range(n) if keys[i] not in keys[i + 1:]]
                for i in keep:
                    for c in cols:
                        d[c].append(e[2][c][i])
                    dates.append(e[3])
            out[w] = {c: np.array(v) for c, v in d.items()}
            if not how['last']:
                out[w]['DATE'] = dates
        return dict(dates = sorted({e[3] for e in ev if e[3]}), wells = out)


@fmt
class cartref(Fmt):
    """Local grid refinements; read back by a parser of our own."""

    def gen(self, rng):
        return dict(q = rng.randrange(1 << 30), lgrs = [dict(name = f'LGR{i}', c = [rng.randint(1, 3) for _ in range(3)], r = [rng.randint(1, 4) for _ in range(3)], at = [rng.randint(0, 5) for _ in range(3)],
                                                             blank = rng.randint(0, 2)) for i in range(rng.randint(1, 3))])

    def export(self, s, path):
        import resqpy.olio.fine_coarse as rqfc
        if os.path.exists(path):
            os.remove(path)
        for g in s['lgrs']:
            fine = [c * r for c, r in zip(g['c'], g['r'])]
            box = np.array([g['at'], [a + c - 1 for a, c in zip(g['at'], g['c'])]])
            fc = rqfc.FineCoarse(fine, g['c'], within_coarse_box = box)
            fc.set_all_ratios_constant()
            fc.set_all_proportions_equal()
            fc.write_cartref(path, g['name'], mode = 'a', root_name = 'ROOT', preceeding_blank_lines = g['blank'], trailing_blank_lines = 1)

    def load(self, s, path, how):
        out, cur = {}, None
        for line in open(path):
            w = line.split()
            if not w or w[0] in ('LGR', 'ENDREF', 'ENDLGR'):
                if w == ['ENDREF']:
                    cur = None
                continue
            if w[0] == 'CARTREF':
                cur = out[w[1]] = []
            else:
                cur.append([int(x) for x in w])
        return out

    def want(self, s, how):
        return {g['name']: [[v for a, c in zip(g['at'][::-1], g['c'][::-1]) for v in (a + 1, a + c)]] + [[r] * c for c, r in zip(g['c'][::-1], g['r'][::-1])] for g in s['lgrs']}


class _mesh(Fmt):
    own = False
    detects = True

    def gen(self, rng):
        return dict(q = rng.randrange(1 << 30), n = [rng.randint(2, 5), rng.randint(2, 5)], nulls = rng.random() < 0.3, per = rng.randint(1, 5))

    def z(self, s):
        r = np.random.default_rng(s['q'])
        z = np.round(r.uniform(1000.0, 2000.0, size = s['n']), 3)
        if s['nulls']:
            z[r.random(size = s['n']) < 0.2] = np.nan
        return z, 100.0, 100.0 + 10.0 * (s['n'][1] - 1), 500.0, 500.0 + 20.0 * (s['n'][0] - 1)

    def load(self, s, path, how):
        import resqpy.olio.zmap_reader as zr
        return list(zr.read_mesh(path, format = type(self).__name__ if type(self).__name__ != 'rms' else how['f']))

    def how(self, rng, s):
        return dict(f = rng.choice(['rms', 'roxar']))

    def complete(self, s, how):
        return True


@fmt
class zmap(_mesh):

    def export(self, s, path):
        z, x0, x1, y0, y1 = self.z(s)
        with open(path, 'w') as f:
            f.write(f'! surface\n@surf HEADER, GRID, {s["per"]}\n15, 0.1E+31, , 4, 1\n{s["n"][0]}, {s["n"][1]}, {x0}, {x1}, {y0}, {y1}\n0.0, 0.0, 0.0\n@\n')
            for col in z.T:
                for i in range(0, len(col), s['per']):
                    f.write(' '.join('0.1E+31' if np.isnan(v) else f'{v:.3f}' for v in col[i:i + s['per']]) + '\n')

    def want(self, s, how):
        z, x0, x1, y0, y1 = self.z(s)
        x, y = np.meshgrid(np.linspace(x0, x1, s['n'][1]), np.linspace(y1, y0, s['n'][0]))
        return [x, y, z]


@fmt
class rms(_mesh):

    def export(self, s, path):
        z, x0, x1, y0, y1 = self.z(s)
        with open(path, 'w') as f:
            f.write(f'-996 {s["n"][0]} 10.0 20.0\n{x0} {x1} {y0} {y1}\n{s["n"][1]} 0.0 {x0} {y0}\n0 0 0 0 0 0 0\n')
            v = z.flatten()
            for i in range(0, len(v), s['per']):
                f.write(' '.join('9999900.0000' if np.isnan(x) else f'{x:.3f}' for x in v[i:i + s['per']]) + '\n')

    def want(self, s, how):
        z, x0, x1, y0, y1 = self.z(s)
        x, y = np.meshgrid(np.linspace(x0, x1, s['n'][1]), np.linspace(y0, y1, s['n'][0]))
        return [x, y, z]


@fmt
class tsurf(Fmt):
    own = False

    def gen(self, rng):
        return dict(q = rng.randrange(1 << 30), n = rng.randint(3, 9), t = rng.randint(1, 8), base = rng.choice([0, 1, 1, 7]))

    def arrays(self, s):
        r = np.random.default_rng(s['q'])
        return np.round(r.uniform(0.0, 1000.0, size = (s['n'], 3)), 3), np.array([r.permutation(s['n'])[:3] for _ in range(s['t'])])

    def export(self, s, path):
        p, t = self.arrays(s)
        with open(path, 'w') as f:
            f.write('GOCAD TSurf 1\nHEADER {\nname: surf\n}\nTFACE\n')
            for i, x in enumerate(p):
                f.write(f'{"VRTX" if i % 3 else "PVRTX"} {i + s["base"]} {x[0]} {x[1]} {x[2]}' + ('' if i % 3 else ' 5.0') + ' CNXYZ\n' * 0 + '\n')
            for x in t:
                f.write('TRGL ' + ' '.join(str(v + s['base']) for v in x) + '\n')
            f.write('END\n')

    def load(self, s, path, how):
        import resqpy.surface as rqs
        m, c = model('other')
        o = rqs.Surface(m, tsurf_file = path, crs_uuid = c.uuid, title = 's')
        t, p = o.triangles_and_points()
        return dict(t = t, p = p)

    def want(self, s, how):
        p, t = self.arrays(s)
        return dict(t = t, p = p)

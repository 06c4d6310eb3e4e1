"""C14: property collections hold, find, read and combine what their properties are, through any history."""
import copy
import os
import random

import numpy as np
import numpy.ma as ma

from .. import core, shim, zoo
from ..core import check
from ..saving import SaveProp, new_model

TITLES = ['PORO', 'PORO two', 'porosity', 'two & <odd>', 'é', 'one', 'One', 'one more', 'more', '*', 'a b', 'none']
CONT = [('porosity', ['m3/m3', '%'], None), ('rock permeability', ['mD'], ('direction', ['I', 'J', 'K', 'IJ', 'IJK'])), ('pressure', ['bar', 'psi'], None),
        ('saturation', ['m3/m3'], ('what', ['oil', 'water', 'gas'])), ('thickness', ['m', 'ft'], ('netgross', ['net', 'gross'])), ('my stiffness', ['kPa', 'furlong'], None),
        ('permeability rock', ['mD'], None), ('continuous', ['m'], None)]
DISC = [('index', None), ('code', ('what', ['a', 'b'])), ('my code', None), ('discrete', None), ('index', ('conditions', ['reservoir', 'standard']))]
CATS = ['categorical', 'my facies', 'code']
REFUSE = [dict(cls = ['flock'], action = 'err', arg = 'EAGAIN'), dict(cls = ['open_r', 'open_w'], action = 'err', arg = 'EMFILE'), dict(cls = ['open_r', 'open_w'], action = 'err', arg = 'EACCES')]
SPOIL = [dict(cls = ['read'], action = 'err', arg = 'EIO'), dict(cls = ['read'], action = 'short', arg = 1), dict(cls = ['open_r', 'read'], action = 'err', arg = 'ENOMEM')]


def num(a):
    return np.asarray(a).astype(float)


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(num(a), num(b), equal_nan = True)


def us(u):
    return None if u is None else str(u)


OTHER = ['mesh', 'mesh', 'surface', 'points', 'polyline', 'lines', 'frame', 'markers', 'blocked', 'gcs', 'cellular']


def plan_other(plan):
    return plan.get('other', 'mesh')


def opened(kind):
    import resqpy.fault as rqf
    import resqpy.lines as rql
    import resqpy.surface as rqs
    import resqpy.unstructured as rug
    import resqpy.well as rqw
    return dict(mesh = rqs.Mesh, surface = rqs.Surface, points = rqs.PointSet, polyline = rql.Polyline, lines = rql.PolylineSet, frame = rqw.WellboreFrame, markers = rqw.WellboreMarkerFrame,
                blocked = rqw.BlockedWell, gcs = rqf.GridConnectionSet, cellular = rug.UnstructuredGrid)[kind]


def support(m, r, crs, grid, kind, nji):
    """Make an object, titled 'other', for properties to be of; returns its uuid and the shapes of arrays, by indexable element, the default first."""
    nj, ni = nji
    n = nj * ni
    cls = opened(kind)
    kw = dict(crs_uuid = crs.uuid, title = 'other')
    xyz = zoo.nprng(r).rand(n, 3) * 100.0
    if kind == 'mesh':
        o = cls(m, mesh_flavour = 'regular', nj = nj, ni = ni, origin = (0.0, 0.0, 0.0), dxyz_dij = np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]), **kw)
        o.create_xml()
        return o.uuid, {'cells': (nj - 1, ni - 1), 'columns': (nj - 1, ni - 1), 'nodes': (nj, ni)}
    if kind == 'surface':
        o = cls(m, **kw)
        a = np.arange(n).reshape(nj, ni)
        t = np.concatenate([np.stack(x, axis = -1).reshape(-1, 3) for x in ((a[:-1, :-1], a[:-1, 1:], a[1:, :-1]), (a[:-1, 1:], a[1:, :-1], a[1:, 1:]))])
        shapes = {'triangles': (len(t),), 'faces': (len(t),), 'nodes': (n,)}
        if r.random() < 0.5:
            o.set_from_triangles_and_points(t, xyz)
        else:
            o.set_multi_patch_from_triangles_and_points([(t, xyz), (t[:1], xyz[[0, 1, ni]])])
            shapes = {'triangles': (len(t) + 1,), 'faces': (len(t) + 1,), 'nodes': (n + 3,)}
    elif kind == 'points':
        o = cls(m, points_array = xyz, **kw)
        shapes = {'nodes': (n,)}
    elif kind == 'polyline':
        closed = r.random() < 0.5
        o = cls(m, set_coord = xyz, is_closed = closed, title = 'other', set_crs = crs.uuid)
        shapes = {'intervals': (n - (not closed),), 'nodes': (n,)}
    elif kind == 'lines':
        import resqpy.lines as rql
        closed = [r.random() < 0.5 for _ in range(3)] if r.random() < 0.7 else [r.random() < 0.5] * 3
        ls = [rql.Polyline(m, set_coord = a, is_closed = b, title = 'line', set_crs = crs.uuid) for a, b in zip((xyz, xyz[:3] + 7.0, xyz[:4] + 9.0), closed)]
        o = cls(m, polylines = ls, title = 'other')
        shapes = {'intervals': (n + 7 - closed.count(False),), 'nodes': (n + 7,)}
    elif kind == 'gcs':
        f = [np.zeros(tuple(x - (k == a) for k, x in enumerate(grid.extent_kji)), dtype = bool) for a in range(3)]
        for x in f:
            x[:] = zoo.nprng(r).rand(*x.shape) < 0.7
        if not any(x.any() for x in f):
            max(f, key = lambda x: x.size).reshape(-1)[0] = True
        o = cls(m, grid = grid, k_faces = f[0] if f[0].size else None, j_faces = f[1] if f[1].size else None, i_faces = f[2] if f[2].size else None, feature_name = 'other', feature_type = 'fault',
                create_organizing_objects_where_needed = True, title = 'other')
        shapes = {'faces': (int(sum(x.sum() for x in f)),)}
    elif kind == 'cellular':
        import resqpy.grid as grr
        import resqpy.unstructured as rug
        b = grr.RegularGrid(m, extent_kji = grid.extent_kji, dxyz = (10.0, 20.0, 3.0), crs_uuid = crs.uuid, title = 'source', set_points_cached = True)
        b.write_hdf5()
        b.create_xml(add_cell_length_properties = False, use_lattice = False, write_geometry = True)
        o = rug.HexaGrid.from_unsplit_grid(m, b.uuid, inherit_properties = False, title = 'other')
        nk, nj, ni = grid.extent_kji
        shapes = {'cells': (nk * nj * ni,), 'nodes': ((nk + 1) * (nj + 1) * (ni + 1),), 'faces per cell': (6 * nk * nj * ni,)}
        return o.uuid, shapes  # it is written already
    else:
        import resqpy.well as rqw
        d = rqw.MdDatum(m, crs_uuid = crs.uuid, location = (5.0, 10.0, -10.0), md_reference = 'kelly bushing')
        d.create_xml()
        tr = rqw.Trajectory(m, md_datum = d, data_frame = None, length_uom = 'm', well_name = 'well')
        tr.crs_uuid, tr.md_uom, tr.knot_count, tr.md_domain, tr.line_kind_index = crs.uuid, 'm', 2, 'driller', 5
        tr.start_md, tr.finish_md = 0.0, 100.0
        tr.measured_depths, tr.control_points = np.array([0.0, 100.0]), np.array([[5.0, 10.0, -10.0], [5.0, 10.0, 90.0]])
        tr.write_hdf5()
        tr.create_feature_and_interpretation()
        tr.create_xml()
        mds = np.arange(n) * 3.0 + 4.0
        shapes = {'nodes': (n,), 'intervals': (n - 1,)}
        if kind == 'frame':
            o = cls(m, trajectory = tr, mds = mds, title = 'other')
        elif kind == 'markers':
            import pandas as pd
            df = pd.DataFrame(dict(MD = mds, Boundary_Feature_Type = ['seal'] * n, Marker_Citation_Title = [f'marker {k}' for k in range(n)]))
            o = cls.from_dataframe(m, trajectory_uuid = tr.uuid, dataframe = df, create_organizing_objects_where_needed = False, title = 'other')
        else:
            o = cls(m, trajectory = tr, well_name = 'other')
            nk, nj, ni = grid.extent_kji
            at = [-1 if r.random() < 0.4 else r.randrange(nk * nj * ni) for _ in range(n - 1)]
            at[r.randrange(n - 1)] = 0
            o.node_count, o.node_mds = n, mds
            o.grid_indices = np.array([-1 if x < 0 else 0 for x in at])
            o.cell_indices = np.array([x for x in at if x >= 0])
            o.cell_count = len(o.cell_indices)
            o.face_pair_indices = np.array([[[0, 0], [0, 1]]] * o.cell_count)
            o.grid_list = [grid]
            shapes = {'intervals': (n - 1,), 'cells': (o.cell_count,), 'nodes': (n,)}
    o.write_hdf5()
    o.create_xml(title = 'other')
    return o.uuid, shapes


class Slot:
    """A property collection and what is known of it."""

    def __init__(self, pc, sup, parts, kind):
        self.pc, self.sup, self.kind = pc, sup, kind
        self.parts = parts  # uuid -> what this collection is to say of it where that differs from the property itself
        self.realization = None
        self.cache = {}  # uuid -> array
        self.imports = []  # (uuid, meta)


class Session:

    def __init__(self, c, plan, st):
        import resqpy.grid as grr
        import resqpy.model as rq
        import resqpy.surface as rqs
        self.c, self.plan = c, plan
        r = random.Random(plan['world'])
        ext = (r.randint(1, 3), r.randint(1, 4), r.choice([1, 2, 3, 4, 8, 9]))
        self.ext, self.nji = ext, (r.randint(2, 4), r.randint(2, 5))
        if st is None:
            self.make(r)
        else:
            self.st = copy.deepcopy(st)
            self.m = rq.Model('a.epc')
            self.stored = copy.deepcopy(st)
        m = self.m
        self.sup = [grr.any_grid(m, uuid = zoo.U(self.st['sup'][0])), opened(self.st['other'])(m, uuid = zoo.U(self.st['sup'][1]))]
        self.inactive = None
        if plan['inactive']:
            self.inactive = zoo.nprng(random.Random(plan['world'] + 1)).rand(*ext) < 0.4
            self.sup[0].inactive = self.inactive
        self.slots = []

    def make(self, r):
        import resqpy.grid as grr
        import resqpy.property as rqp
        import resqpy.surface as rqs
        import resqpy.time_series as rts
        from resqpy.crs import Crs
        m = self.m = new_model('a.epc')
        crs = Crs(m)
        crs.create_xml()
        g = grr.RegularGrid(m, extent_kji = self.ext, dxyz = (10.0, 20.0, 3.0), crs_uuid = crs.uuid, title = 'grid', set_points_cached = False)
        g.create_xml(add_cell_length_properties = False)
        other = plan_other(self.plan)
        if other == 'gcs' and self.ext == (1, 1, 1):
            other = 'mesh'  # there are no connections
        ou, shapes = support(m, r, crs, g, other, self.nji)
        ts, sl = [], []
        for k in range(2):
            t = rts.TimeSeries(m, first_timestamp = f'200{k}-01-01', title = f'ts {k}')
            for d in (31, 28, 31):
                t.extend_by_days(d)
            t.create_xml(reuse = False)
            ts.append(str(t.uuid))
            s = rqp.StringLookup(m, int_to_str_dict = {0: 'zero', 1: 'one', 2: f'two {k}', 5: 'five'}, title = f'sl {k}')
            s.create_xml(reuse = False)
            sl.append(str(s.uuid))
        self.st = dict(sup = [str(g.uuid), str(ou)], other = other, shapes = shapes, ts = ts, sl = sl, props = {}, sets = [], n = 0)

    # ------------------------------------------------------------------ what properties are

    def shape(self, sup, ie, direction = None):
        nk, nj, ni = self.ext
        if sup == 1:
            return tuple(self.st['shapes'][ie])
        if ie == 'faces' and direction is None:
            return ((nk + 1) * nj * ni + nk * (nj + 1) * ni + nk * nj * (ni + 1),)
        if ie == 'faces':
            return tuple(n + (x == direction) for n, x in zip(self.ext, 'KJI'))
        return {'cells': (nk, nj, ni), 'columns': (nj, ni), 'layers': (nk,), 'nodes': (nk + 1, nj + 1, ni + 1), 'faces per cell': (nk, nj, ni, 6), 'edges per column': (nj, ni, 4),
                'J0': (nk, ni), 'I0': (nk, nj), 'nodes per cell': (nk, nj, ni, 2, 2, 2), 'column edges': (nj * (ni + 1) + (nj + 1) * ni,)}[ie]

    def describe(self, r, sup):
        """A property to be: its metadata and values."""
        st = self.st
        d = dict(sup = sup, title = r.choice(TITLES), facet_type = None, facet = None, realization = None, ts = None, ti = None, uom = None, sl = None, const = None, null = None, points = False,
                 count = 1, extra = {}, packed = False)
        fam = r.choice(['cont'] * 5 + ['disc'] * 4 + ['cat'] * 2 + ['points'])
        f = None
        d['fam'] = fam
        if fam == 'cont':
            kind, uoms, f = r.choice(CONT)
            d['uom'] = r.choice(uoms)
        elif fam == 'disc':
            kind, f = r.choice(DISC)
        elif fam == 'cat':
            kind = r.choice(CATS)
            d['sl'] = r.choice(st['sl'])
        else:
            kind = r.choice(['length', 'my vector'])
            d['points'] = True
        d['ask_kind'] = kind
        d['kind'] = {'permeability rock': 'rock permeability', 'continuous': d['title'], 'discrete': d['title'], 'categorical': d['title']}.get(kind, kind)
        d['continuous'] = fam in ('cont', 'points')
        first, *rest = st['shapes'] if sup else ['cells']
        ies = [first] * 6 + (rest if sup else ['columns', 'layers', 'nodes', 'faces per cell', 'edges per column', 'I0', 'J0', 'faces', 'nodes per cell', 'column edges'])
        d['ie'] = r.choice(ies)
        if f and r.random() < 0.7:
            d['facet_type'], d['facet'] = f[0], r.choice(f[1])
        if d['ie'] == 'faces' and d['facet_type'] == 'direction' and len(d['facet']) > 1:
            d['facet'] = 'K'
        if r.random() < 0.4:
            d['ts'], d['ti'] = r.choice(st['ts']), r.randrange(4)
        if r.random() < 0.4:
            d['realization'] = r.randrange(4)
        if r.random() < 0.15:
            d['count'] = 2
        if fam in ('disc', 'cat') and r.random() < 0.5:
            d['null'] = r.choice([-1, 0, 1, 255])
        if r.random() < 0.3:
            d['extra'] = {'k1': r.choice(['v1', 'v 2', '<&>'])}
            if r.random() < 0.4:
                d['extra']['k2'] = 'w'
        if d['uom'] == 'furlong':
            d['extra_uom'] = True
        if r.random() < 0.15 and not d['points'] and d['count'] == 1:
            d['const'] = r.choice([0.0, 1.5, -2.25]) if fam == 'cont' else r.choice([0, 1, 2, 5] + ([True, False] if fam == 'disc' else []))
        self.fill(r, d)
        return d

    def fill(self, r, d):
        """Values, all of them exactly representable however they are to be stored."""
        sh = self.shape(d['sup'], d['ie'], d['facet'] if d['facet_type'] == 'direction' else None)
        if d['const'] is not None:
            d['array'] = np.full(sh, d['const'])
            return
        sh = sh + ((d['count'],) if d['count'] > 1 else ()) + ((3,) if d['points'] else ())
        g = zoo.nprng(r)
        if d['continuous']:
            a = g.randint(-200, 200, size = sh) / 8
            x = r.random()
            if x < 0.2:
                a.reshape(-1)[r.randrange(a.size)] = np.nan
            elif x < 0.24:
                a[:] = np.nan
            elif x < 0.3:
                a[:] = 2.5
            elif x < 0.36:
                a = np.abs(a)
            d['array'] = a.astype(r.choice([np.float64, np.float64, np.float32]))
        elif d['fam'] == 'cat':
            d['array'] = g.choice([0, 1, 2, 5], size = sh).astype(r.choice([np.int64, np.int32, np.uint8]))
        elif r.random() < 0.35:
            d['array'] = g.rand(*sh) < 0.5
        else:
            a = g.randint(0, 6, size = sh)
            if d['null'] == -1:
                a[g.rand(*sh) < 0.3] = -1
            d['array'] = a.astype(r.choice([np.int64, np.int64, np.int32, np.int8]))

    def add_args(self, d):
        return dict(discrete = not d['continuous'], uom = d['uom'], time_index = d['ti'], null_value = d['null'], property_kind = d['ask_kind'], facet_type = d['facet_type'], facet = d['facet'],
                    realization = d['realization'], indexable_element = d['ie'], count = d['count'], const_value = d['const'], points = d['points'],
                    time_series_uuid = None if d['ts'] is None else zoo.U(d['ts']), string_lookup_uuid = None if d['sl'] is None else zoo.U(d['sl']))

    def meta(self, s, u):
        """What a collection is to say of a property."""
        d = dict(self.st['props'][u])
        d.update(s.parts[u])
        return d

    def bounds(self, d):
        """What may be given as least and greatest value: sets of possibilities, None for anything."""
        a = d['array']
        if d['points'] or d['fam'] == 'cat':
            return [None], [None]
        if d['const'] is not None and isinstance(d['const'], bool):
            return None, None
        a = num(a)
        ok = ~np.isnan(a)
        if d['null'] is not None:
            if not np.any(ok & (a != d['null'])):
                return None, None
            ok &= a != d['null']
        if not np.any(ok):
            return [None], [None]
        lo, hi = [a[ok].min()], [a[ok].max()]
        if d['null'] is not None and self.inactive is not None and d['array'].shape == self.inactive.shape and d['sup'] == 0:
            b = ok & ~self.inactive
            if not np.any(b):
                return None, None
            lo, hi = lo + [a[b].min()], hi + [a[b].max()]
        if d['fam'] == 'disc':
            lo, hi = lo + [None], hi + [None]
        return lo, hi

    # ------------------------------------------------------------------ trouble

    def trouble(self, r, f, spoil = True, after = None, often = 1):
        """Do f, perhaps while the disk is in trouble; it must raise or be right, and be right once the trouble is over."""
        x = r.random()
        if x > self.plan['trouble'] * often:
            return f()
        self.m.h5_release()
        fl = dict(r.choice(REFUSE + (SPOIL if spoil else [])))
        fl.update(nth = r.choice([0, 0, 0, 1, 2, r.randrange(40)]), repeat = r.choice([1, 1, 3, -1]), suffix = '.h5')
        before = dict(shim.fired())
        shim.arm([fl])
        try:
            out = f()
            err = None
        except core.Violation:
            raise
        except Exception as e:  # noqa
            err = e
        shim.disarm()
        hit = shim.fired() != before
        if err is None:
            self.c.probe('trouble-absorbed' if hit else 'trouble-missed')
            return out
        if not hit:
            raise err
        self.c.probe('trouble-reported')
        self.c.event('trouble', fl['cls'], fl['nth'], type(err).__name__)
        self.m.h5_release()
        if after is not None:
            after()
        return f()

    # ------------------------------------------------------------------ operations

    def pick(self, r, kinds = None):
        ss = [s for s in self.slots if kinds is None or s.kind in kinds]
        return r.choice(ss) if ss else None

    def op_new(self, r):
        import resqpy.property as rqp
        m, st = self.m, self.st
        k = r.choice(['support', 'support', 'support', 'empty', 'empty', 'gpc', 'set', 'aps', 'multi', 'view', 'selected', 'realization'])
        sup = 0 if k == 'gpc' or r.random() < 0.75 else 1
        all_ = {u: {} for u, d in st['props'].items() if d['sup'] == sup}
        if k == 'support':
            s = Slot(rqp.PropertyCollection(support = self.sup[sup]), sup, all_, k)
        elif k == 'empty':
            pc = rqp.PropertyCollection()
            if r.random() < 0.5:
                pc.set_support(support = self.sup[sup])
            else:
                pc.set_support(support_uuid = zoo.U(st['sup'][sup]), support = r.choice([self.sup[sup], None]), model = m)
            s = Slot(pc, sup, {}, k)
        elif k == 'realization':
            n = r.randrange(4)
            pc = rqp.PropertyCollection(realization = n)
            pc.set_support(support = self.sup[sup])
            s = Slot(pc, sup, {}, k)
            s.realization = n
        elif k == 'gpc':
            s = Slot(rqp.GridPropertyCollection(grid = self.sup[0]), 0, all_, k)
        elif k == 'set':
            sets = [x for x in st['sets'] if all(u in st['props'] for u in x['members'])]
            if not sets:
                return
            x = r.choice(sets)
            pc = rqp.PropertyCollection(support = self.sup[x['sup']], property_set_root = m.root_for_uuid(zoo.U(x['uuid'])))
            s = Slot(pc, x['sup'], {u: {} for u in x['members']}, k)
        elif k == 'aps':
            mode, ix = r.choice(['pk', 'title']), r.choice([None, 'cells'])
            pc = rqp.AttributePropertySet(model = m, support = self.sup[sup], key_mode = mode, indexable = ix, multiple_handling = 'ignore')
            s = Slot(pc, sup, all_, k)
            self.aps(s, mode, ix)
        elif k == 'multi':
            pc = rqp.PropertyCollection()
            pc.model = m
            s = Slot(pc, None, {}, k)
            us_ = [u for u in st['props']]
            r.shuffle(us_)
            for u in us_[:r.randint(1, 8)]:
                pc.add_part_to_dict(m.part_for_uuid(zoo.U(u)))
                s.parts[u] = {}
        else:
            o = self.pick(r)
            if o is None:
                return
            if k == 'view':
                crit = self.criteria(r, o)
                want = self.select(o, crit)
                pc = rqp.selective_version_of_collection(o.pc, **self.crit_args(crit))
                s = Slot(pc, o.sup, {u: dict(o.parts[u]) for u in want}, k)
                s.realization = crit.get('realization') if not isinstance(crit.get('realization'), str) else None
                if isinstance(crit.get('realization'), str):
                    return
            else:
                d = [u for u in o.parts if self.meta(o, u)['ts'] is not None]
                if not d or o.sup is None:
                    return
                u = r.choice(d)
                if o.realization is not None and self.meta(o, u)['realization'] is None:
                    return
                pc = rqp.property_over_time_series_from_collection(o.pc, self.part(u))
                want = self.select(o, self.like(o, u, ['realization', 'support', 'continuous', 'points', 'indexable', 'property_kind', 'facet_type', 'facet', 'title', 'ts']))
                s = Slot(pc, o.sup, {v: dict(o.parts[v]) for v in want}, k)
                s.realization = o.realization
        self.slots.append(s)
        if len(self.slots) > 4:
            self.slots.pop(0)
        self.members(s, f'a new collection ({k})')

    def part(self, u):
        return self.m.part_for_uuid(zoo.U(u))

    def members(self, s, what):
        got = [us(self.m.uuid_for_part(p)) for p in s.pc.parts()]
        check(len(got) == len(set(got)), 'members', lambda: f'{what}: a part is listed twice')
        check(set(got) == set(s.parts), 'members', lambda: f'{what}: holds {len(got)} parts instead of {len(s.parts)}: wrong or missing {sorted(self.st["props"].get(u, {}).get("title", "?") for u in set(got) ^ set(s.parts))[:4]}')
        check(s.pc.number_of_parts() == len(s.parts) and [us(u) for u in s.pc.uuids()] == got, 'members', f'{what}: number of parts or uuids')
        check(s.pc.number_of_imports() == len(s.imports), 'imports', f'{what}: {s.pc.number_of_imports()} items in the imported list instead of {len(s.imports)}')

    def aps(self, s, mode, ix):
        keys = {}
        for p in s.pc.parts():
            u = us(self.m.uuid_for_part(p))
            d = self.meta(s, u)
            key = d['title']
            if mode == 'pk':
                key = d['kind'] + (f'_{d["ie"]}' if ix is not None and d['ie'] != ix else '') + (f'_{d["facet"]}' if d['facet'] is not None else '')
            key = key.replace(' ', '_') + (f'_t{d["ti"]}' if d['ti'] is not None else '') + (f'_r{d["realization"]}' if d['realization'] is not None else '')
            keys.setdefault(key, u)
        check(set(s.pc.keys()) == set(keys), 'aps-keys', lambda: f'attribute property set has keys {sorted(set(s.pc.keys()) ^ set(keys))[:3]} missing or extra')
        check(len(s.pc) == len(s.parts), 'aps-keys', 'length of an attribute property set')
        for k, p in s.pc.items():
            d = self.meta(s, keys[k])
            got = dict(uuid = us(p.uuid), title = p.title, kind = p.property_kind, facet_type = p.facet_type, facet = p.facet, ie = p.indexable, continuous = p.is_continuous, points = p.is_points,
                       count = p.count, uom = p.uom, null = p.null_value, realization = p.realization, ti = p.time_index, ts = us(p.time_series_uuid), sl = us(p.string_lookup_uuid))
            want = {x: (keys[k] if x == 'uuid' else d[x]) for x in got}
            if want['null'] == 'any':
                want['null'] = got['null']
            df = zoo.diff(want, got)
            check(df is None, 'aps-value', lambda: f'attribute property set, {k}: {df}')

    # importing

    def group(self, r, sup):
        """One or several related properties to be."""
        d = self.describe(r, sup)
        x = r.random()
        if x < 0.5:
            return [d]
        out = []
        n = r.randint(2, 4)
        if x < 0.68:
            for k in r.sample(range(5), n):
                out.append(dict(d, realization = k))
        elif x < 0.84:
            ts = d['ts'] or r.choice(self.st['ts'])
            for k in r.sample(range(4), n):
                out.append(dict(d, ts = ts, ti = k))
        else:
            f = [f for f in CONT if f[0] == d['ask_kind'] and len(f) > 2 and f[2]] + [(k, None, f) for k, f in DISC if k == d['ask_kind'] and f]
            if not f or d['points'] or d['ie'] == 'faces':
                return [d]
            ft, fs = f[0][2]
            for k in r.sample(fs, min(n, len(fs))):
                out.append(dict(d, facet_type = ft, facet = k))
        for e in out:
            e['extra'] = dict(d['extra'])
            self.fill(r, e)
        return out

    def op_import(self, r):
        s = self.pick(r)
        if s is None or s.sup is None or s.kind == 'aps':
            return
        ds = []
        for _ in range(r.randint(1, 2)):
            ds += self.group(r, s.sup)
        extra = ds[0]['extra']
        for d in ds:
            d['extra'] = dict(extra)
            d['source'] = r.choice([None, 'made', 'a & b'])
            similar = [u for u, e in self.st['props'].items() if e['sup'] == s.sup]
            if similar and d['title'] != 'none' and r.random() < 0.25:
                u = self.add_similar(r, s, d, r.choice(similar))
            else:
                u = s.pc.add_cached_array_to_imported_list(None if d['const'] is not None else d['array'].copy(), d['source'], d['title'], **self.add_args(d))
            s.imports.append((us(u), d))
        self.members(s, 'after adding to the imported list')
        o = self.pick(r)
        if o is not None and o is not s and o.sup == s.sup and r.random() < 0.3 and o.kind != 'aps' and not o.imports:
            o.pc.inherit_imported_list_from_other_collection(s.pc)
            o.imports += s.imports
            s.pc.remove_cached_imported_arrays()
            s.pc.imported_list = []
            s.imports = []
            s = o
            self.members(s, 'after inheriting an imported list')
        if r.random() < 0.2:
            return  # to be written along with later ones
        self.flush(r, s, extra)

    def add_similar(self, r, s, d, like):
        """Only what differs from a similar property is given."""
        e = self.st['props'][like]
        a = self.add_args(d)
        kw = dict(discrete = a['discrete'], points = a['points'], indexable_element = a['indexable_element'], count = a['count'], const_value = a['const_value'], property_kind = a['property_kind'])
        if r.random() < 0.5 and e['continuous'] == d['continuous'] and e['points'] == d['points']:
            kw.pop('discrete')
            kw.pop('points')
        same = dict(uom = 'uom', time_index = 'ti', null_value = 'null', facet_type = 'facet_type', facet = 'facet', realization = 'realization', time_series_uuid = 'ts', string_lookup_uuid = 'sl')
        for k, x in same.items():
            if d[x] == e[x] or x == 'null' and d[x] is None and e['continuous']:
                continue
            kw[k] = 'none' if d[x] is None else a[k]
        if e['kind'] != d['kind'] and e['kind'].startswith('my ') or e['kind'] in TITLES:
            kw['local_property_kind_uuid'] = 'none'
        if d['title'] != e['title']:
            kw[r.choice(['keyword', 'title'])] = d['title']
        if d['source'] != e['source']:
            kw['source_info'] = d['source'] or 'none'
        self.c.probe('similar')
        return s.pc.add_similar_to_imported_list(zoo.U(like), None if d['const'] is not None else d['array'].copy(), **kw)

    def op_sample(self, r):
        """Elements of the properties of another collection make new properties."""
        a, b = self.pick(r), self.pick(r)
        if a is None or b is None or a.sup is None or a.sup != b.sup or a.kind == 'aps' or not b.parts or a.imports or b.pc.support is None or a.pc.support is None:
            return
        ie = r.choice([self.meta(b, u)['ie'] for u in b.parts])
        want = [u for u in b.parts if self.meta(b, u)['ie'] == ie and self.meta(b, u)['count'] == 1 and not self.meta(b, u)['points'] and (ie != 'faces' or self.meta(b, u)['facet_type'] != 'direction')]
        if not want or b.realization is not None:
            return
        import resqpy.property as rqp
        pc = rqp.selective_version_of_collection(b.pc, indexable = ie, count = 1, points = False)
        for p in pc.parts():
            if us(self.m.uuid_for_part(p)) not in want:
                pc.remove_part_from_dict(p)
        n = self.st['props'][want[0]]['array'].size
        if pc.support is None or any(self.meta(b, u)['null'] == 'any' for u in want):
            return
        idx = zoo.nprng(r).randint(0, n, size = n)
        self.trouble(r, lambda: (setattr(a.pc, 'imported_list', []), a.pc.add_to_imported_list_sampling_other_collection(pc, idx)))
        ps = [us(self.m.uuid_for_part(p)) for p in pc.parts()]
        check(len(a.pc.imported_list) == len(ps), 'imports', lambda: f'{len(a.pc.imported_list)} items in the imported list after sampling {len(ps)} properties')
        for u, item in zip(ps, a.pc.imported_list):
            d = dict(self.meta(b, u), source = 'sampled from property for ' + ['grid', 'other'][b.sup], extra = {})
            for k in ('lo', 'hi', 'expanded'):
                d.pop(k, None)
            if d['const'] is None:
                v = self.st['props'][u]['array']
                d['array'] = v.flatten()[idx].reshape(v.shape)
            a.imports.append((us(item[0]), d))
        self.c.probe('sampled', len(ps))
        self.flush(r, a, {})

    def op_flush(self, r):
        s = self.pick(r)
        if s is not None and s.imports:
            self.flush(r, s, {})

    def flush(self, r, s, extra):
        expand = r.random() < 0.3 and not any(d['const'] is not None and d['ie'] == 'faces' for _, d in s.imports)
        kw = dict(expand_const_arrays = expand, use_int32 = r.choice([None, None, True, False]), use_pack = r.random() < 0.4, chunks = r.choice([None, None, 'auto', 'all', 'slice']),
                  compression = r.choice([None, None, 'gzip', 'lzf']))
        ds = [d for _, d in s.imports]
        if r.random() < 0.2 and all(d['continuous'] for d in ds):
            kw['dtype'] = r.choice([np.float32, np.float64])
        if r.random() < 0.15 and all(not d['continuous'] and d['array'].dtype != bool and d['const'] is None for d in ds):
            kw['dtype'] = r.choice([np.int16, np.int32])
        n = len(s.imports)

        def write():
            check(s.pc.number_of_imports() == n, 'imports', f'{s.pc.number_of_imports()} items in the imported list instead of {n} after a write that failed')
            s.pc.write_hdf5_for_imported_list(**kw)

        self.trouble(r, write, spoil = False)
        for _, d in s.imports:
            d['extra'] = dict(extra)
        got = s.pc.create_xml_for_imported_list_and_add_parts_to_model(expand_const_arrays = expand, extra_metadata = dict(extra))
        check([us(u) for u in got] == [u for u, _ in s.imports], 'imports', 'uuids returned for imported properties')
        for u, d in s.imports:
            d = dict(d)
            if d['const'] is not None and expand:
                d['const'] = None
                d['array'] = np.array(d['array'])
                d['expanded'] = True
            d['packed'] = d['array'].dtype == bool and d['const'] is None and kw['use_pack'] and 'dtype' not in kw
            if d.get('expanded') and d['array'].dtype == bool:
                d['packed'] = kw['use_pack']
            if d['extra_uom'] if 'extra_uom' in d else False:
                d['extra'] = dict(d['extra'], Uom = d['uom'])
            if d['source']:
                d['extra'] = dict(d['extra'], source = d['source'])
            if d['continuous']:
                d['null'] = np.nan
            elif d['const'] is not None:
                d['null'] = None if d['null'] is None else 'any'
            elif d['null'] is None:
                d['null'] = -1  # the default
            self.st['props'][u] = d
            s.parts[u] = {}
            if s.realization is not None and d['realization'] is None:
                s.parts[u]['realization'] = s.realization
            if d['const'] is None:
                s.cache[u] = d['array'].copy()
        s.imports = []
        self.m.h5_release()
        self.c.probe('imported', n)
        self.members(s, 'after importing')

    # moving parts about

    def op_inherit(self, r):
        a, b = self.pick(r), self.pick(r)
        if a is None or b is None or a is b or a.sup != b.sup or a.sup is None:
            return
        if a.realization is not None and b.realization is not None and a.realization != b.realization:
            return
        x = r.random()
        if x < 0.3:
            want = list(b.parts)
            clash = set(want) & set(a.parts)
            ig = bool(clash) or r.random() < 0.3
            a.pc.inherit_parts_from_other_collection(b.pc, ignore_clashes = ig)
        elif x < 0.7 or not b.parts:
            crit = self.criteria(r, b, extra = True)
            want = self.select(b, crit)
            ig = bool(set(want) & set(a.parts)) or r.random() < 0.3
            args = self.crit_args(crit)
            if 'title_mode' in args:
                args['citation_title_match_mode'] = args.pop('title_mode')
            if 'title' in args:
                args['citation_title'] = args.pop('title')
            a.pc.inherit_parts_selectively_from_other_collection(b.pc, ignore_clashes = ig, **args)
        else:
            u = r.choice(list(b.parts))
            d = self.meta(b, u)
            how = r.choice(['time_series', 'facets', 'realizations'])
            if how == 'time_series' and d['ts'] is None or how == 'facets' and d['points']:
                return
            keys = dict(time_series = ['realization', 'support', 'continuous', 'points', 'indexable', 'property_kind', 'facet_type', 'facet', 'title', 'ts'],
                        facets = ['realization', 'support', 'continuous', 'points', 'indexable', 'property_kind', 'title', 'ts', 'ti'],
                        realizations = ['support', 'continuous', 'points', 'indexable', 'property_kind', 'facet_type', 'facet', 'title', 'ts', 'ti'])[how]
            want = self.select(b, self.like(b, u, keys))
            getattr(a.pc, f'inherit_similar_parts_for_{how}_from_other_collection')(b.pc, self.part(u), ignore_clashes = True)
            self.c.probe('inherit-similar')
        for u in want:
            if u not in a.parts:
                a.parts[u] = dict(b.parts[u])
        self.c.probe('inherited', len(want))
        self.members(a, 'after inheriting')
        self.members(b, 'a collection inherited from')

    def op_remove(self, r):
        s = self.pick(r)
        if s is None or not s.parts or s.kind == 'aps':
            return
        ps = r.sample(sorted(s.parts), min(len(s.parts), r.randint(1, 3)))
        if len(ps) == 1 and r.random() < 0.5:
            s.pc.remove_part_from_dict(self.part(ps[0]))
        else:
            s.pc.remove_parts_list_from_dict([self.part(u) for u in ps])
        for u in ps:
            del s.parts[u]
        self.members(s, 'after removing')

    def op_drop(self, r):
        """A property is removed from the model and so from the collections."""
        us_ = [u for u in self.st['props'] if not any(u in x['members'] for x in self.st['sets'])]
        if not us_:
            return
        u = r.choice(us_)
        p = self.part(u)
        for s in list(self.slots):
            if u in s.parts:
                if s.kind == 'aps':
                    self.slots.remove(s)
                    continue
                s.pc.remove_part_from_dict(p)
                del s.parts[u]
                s.pc.uncache_part_array(p)
                s.cache.pop(u, None)
        self.m.remove_part(p)
        del self.st['props'][u]

    def op_add(self, r):
        s = self.pick(r)
        if s is None or s.kind == 'aps':
            return
        us_ = [u for u, d in self.st['props'].items() if u not in s.parts and (s.sup is None or d['sup'] == s.sup)]
        if not us_:
            return
        u = r.choice(us_)
        d = self.st['props'][u]
        kw = {}
        if r.random() < 0.3:
            kw['continuous'] = d['continuous']
        if r.random() < 0.2 and s.realization is None:
            kw['realization'] = r.randrange(4)
        s.pc.add_part_to_dict(self.part(u), **kw)
        s.parts[u] = {}
        if d['realization'] is None:
            n = kw.get('realization', s.realization)
            if n is not None:
                s.parts[u]['realization'] = n
        self.members(s, 'after adding a part')

    def op_number(self, r):
        s = self.pick(r, ['view', 'empty'])
        if s is None or not s.parts:
            return
        ds = [self.meta(s, u) for u in s.parts]
        if len({d['kind'] for d in ds}) > 1 or len({d['ie'] for d in ds}) > 1 or len({d['uom'] for d in ds}) > 1:
            return
        s.pc.assign_realization_numbers()
        got = [s.pc.realization_for_part(self.part(u)) for u in s.parts]
        check(sorted(got) == list(range(len(s.parts))), 'realizations', lambda: f'assigned realization numbers {got}')
        for u, n in zip(s.parts, got):
            s.parts[u]['realization'] = n

    # selecting

    def related(self, u):
        d = self.st['props'][u]
        out = {self.st['sup'][d['sup']], d['ts'], d['sl']} | {x['uuid'] for x in self.st['sets'] if u in x['members']}
        return out - {None}

    def like(self, s, u, keys):
        d = self.meta(s, u)
        all_ = dict(realization = d['realization'], support = self.st['sup'][d['sup']], continuous = d['continuous'], points = d['points'], indexable = d['ie'], property_kind = d['kind'],
                    facet_type = d['facet_type'], facet = d['facet'], title = d['title'], ts = d['ts'], ti = d['ti'])
        return {k: all_[k] for k in keys if all_[k] is not None}

    def criteria(self, r, s, extra = False):
        st = self.st
        pool = list(s.parts) or list(st['props'])
        d = dict(st['props'][r.choice(pool)]) if pool else dict(title = 'x', realization = 1, sup = 0, continuous = True, points = False, count = 1, ie = 'cells', kind = 'porosity', facet_type = None,
                                                                facet = None, ts = None, ti = None, uom = 'm', sl = None, const = None, extra = {}, fam = 'cont')
        if r.random() < 0.3:
            o = r.choice(list(st['props'].values())) if st['props'] else d
            d.update({k: o[k] for k in r.sample(['title', 'kind', 'uom', 'ie'], 2)})
        crit = {}
        for k in r.sample(['realization', 'support', 'continuous', 'points', 'count', 'indexable', 'property_kind', 'facet_type', 'facet', 'title', 'ts', 'ti', 'uom', 'sl', 'categorical', 'related', 'const', 'extra'],
                          r.choice([1, 1, 1, 2, 2, 3])):
            if k == 'realization':
                if s.realization is None:
                    crit[k] = d['realization'] if d['realization'] is not None and r.random() < 0.8 else r.choice([0, 1, 7])
                elif r.random() < 0.5:
                    crit[k] = s.realization
            elif k == 'support':
                if s.sup is not None:
                    crit[k] = st['sup'][s.sup]
            elif k in ('continuous', 'points'):
                crit[k] = d[k]
            elif k == 'count':
                crit[k] = r.choice([1, 2, 3])
            elif k == 'indexable':
                crit[k] = d['ie']
            elif k == 'property_kind':
                crit[k] = d['kind'] if d['kind'] != 'rock permeability' else r.choice(['rock permeability', 'permeability rock'])
            elif k in ('facet_type', 'facet', 'ts', 'sl', 'uom'):
                x = r.random()
                v = '*' if x < 0.15 else 'none' if x < 0.3 else d[k]
                if v is not None:
                    crit[k] = v
            elif k == 'ti':
                crit[k] = d['ti'] if d['ti'] is not None else r.randrange(4)
            elif k == 'title':
                crit['title'], crit['mode'] = d['title'], None
                x = r.random()
                if x < 0.7:
                    t = d['title']
                    cut = r.randrange(len(t) + 1)
                    crit['mode'] = md = r.choice(['is', 'starts', 'ends', 'contains', 'is not', 'does not start', 'does not end', 'does not contain'])
                    if 'start' in md:
                        crit['title'] = t[:cut] or t
                    elif 'end' in md:
                        crit['title'] = t[cut:] or t
                    elif 'contain' in md:
                        crit['title'] = t[cut // 2:cut] or t
            elif k == 'categorical':
                crit[k] = r.random() < 0.5
            elif k == 'related':
                crit[k] = r.choice([x for x in st['ts'] + st['sl'] + st['sup'] + [y['uuid'] for y in st['sets']]])
            elif k == 'const':
                if d['const'] is not None:
                    crit[k] = d['const']
            elif k == 'extra' and extra and d['extra']:
                n = r.choice(sorted(d['extra']))
                crit[k] = {n: d['extra'][n] if r.random() < 0.8 else 'other'}
        return crit

    def crit_args(self, crit):
        names = dict(support = 'support_uuid', ts = 'time_series_uuid', ti = 'time_index', sl = 'string_lookup_uuid', related = 'related_uuid', const = 'const_value', mode = 'title_mode')
        out = {}
        for k, v in crit.items():
            if k in ('support', 'ts', 'sl', 'related') and v not in ('*', 'none'):
                v = zoo.U(v)
            out[names.get(k, k)] = v
        return out

    def fits(self, s, u, crit):
        d = self.meta(s, u)

        def m(k, v):
            return v is not None if crit[k] == '*' else v is None if crit[k] == 'none' else v == crit[k]

        for k, v in crit.items():
            if k == 'mode':
                continue
            if k == 'support':
                ok = self.st['sup'][d['sup']] == v
            elif k == 'indexable':
                ok = d['ie'] == v
            elif k == 'property_kind':
                ok = d['kind'] == ('rock permeability' if v == 'permeability rock' else v)
            elif k == 'title':
                md = crit.get('mode') or 'is'
                t = d['title']
                ok = {'is': t == v, 'starts': t.startswith(v), 'ends': t.endswith(v), 'contains': v in t, 'is not': t != v, 'does not start': not t.startswith(v), 'does not end': not t.endswith(v),
                      'does not contain': v not in t}[md]
            elif k == 'categorical':
                ok = (d['sl'] is not None) == v
            elif k == 'related':
                ok = v in self.related(u)
            elif k == 'extra':
                ok = all(d['extra'].get(n) == x for n, x in v.items())
            else:
                ok = m(k, d[k])
            if not ok:
                return False
        return True

    def select(self, s, crit):
        return [u for u in s.parts if self.fits(s, u, crit)]

    def op_select(self, r):
        s = self.pick(r)
        if s is None:
            return
        for _ in range(r.randint(1, 6)):
            crit = self.criteria(r, s)
            want = self.select(s, crit)
            args = self.crit_args(crit)
            if 'title' in args and r.random() < 0.5:
                args['citation_title'] = args.pop('title')
            got = [us(self.m.uuid_for_part(p)) for p in s.pc.selective_parts_list(**args)]
            check(sorted(got) == sorted(want), 'selection', lambda: f'{crit}: {len(got)} parts selected instead of {len(want)}')
            self.c.probe('selected')
            self.c.state(f'sel:{"+".join(sorted(crit))}:{min(len(want), 3)}')
            one = r.choice(['none', 'first', 'oldest', 'newest', 'exception'])
            try:
                p = s.pc.singleton(multiple_handling = one, **args)
                raised = False
            except AssertionError:
                raised = True
            if one == 'exception' or one == 'none' and False:
                check(raised == (len(want) > 1), 'selection', lambda: f'singleton {crit}: {"raised" if raised else "did not raise"} with {len(want)} parts')
            if raised:
                if one == 'none' and len(want) > 1:
                    continue
                check(one == 'exception', 'selection', lambda: f'singleton {crit}, {one}: raised with {len(want)} parts')
                continue
            u = None if p is None else us(self.m.uuid_for_part(p))
            if len(want) == 1:
                check(u == want[0], 'selection', lambda: f'singleton {crit}: not the part that matches')
            elif not want:
                check(u is None, 'selection', lambda: f'singleton {crit}: a part where none matches')
            else:
                check(u is None if one == 'none' else u in want, 'selection', lambda: f'singleton {crit}, {one}: not one of the parts that match')
            if len(want) == 1 and self.readable(s, u) and r.random() < 0.5:
                a = self.trouble(r, lambda: s.pc.single_array_ref(**{k: v for k, v in args.items() if k != 'const_value'}) if 'const_value' not in args else s.pc.cached_part_array_ref(p))
                if a is not None and 'const_value' not in args:
                    self.right(s, u, a, 'single array')

    # metadata

    def op_query(self, r):
        s = self.pick(r)
        if s is None:
            return
        pc, m = s.pc, self.m
        self.members(s, 'collection')
        for u in s.parts:
            p, d = self.part(u), self.meta(s, u)
            check(pc.part_in_collection(p), 'members', 'part_in_collection')
            got = dict(realization = pc.realization_for_part(p), continuous = pc.continuous_for_part(p), points = pc.points_for_part(p), count = pc.count_for_part(p), ie = pc.indexable_for_part(p),
                       kind = pc.property_kind_for_part(p), facet_type = pc.facet_type_for_part(p), facet = pc.facet_for_part(p), title = r.choice([pc.citation_title_for_part, pc.title_for_part])(p),
                       ts = us(pc.time_series_uuid_for_part(p)), ti = pc.time_index_for_part(p), uom = pc.uom_for_part(p), sl = us(pc.string_lookup_uuid_for_part(p)),
                       const = pc.constant_value_for_part(p), null = pc.null_value_for_part(p), extra = pc.extra_metadata_for_part(p), sup = us(pc.support_uuid_for_part(p)), uuid = us(pc.uuid_for_part(p)),
                       cat = pc.part_is_categorical(p), source = pc.source_for_part(p))
            want = {k: d.get(k) for k in got}
            want.update(sup = self.st['sup'][d['sup']], uuid = u, cat = d['sl'] is not None)
            if want['null'] == 'any':
                want['null'] = got['null']
            df = zoo.diff(want, got)
            check(df is None, 'metadata', lambda: f'{d["title"]}: {df}')
            lo, hi = (d['lo'], d['hi']) if 'lo' in d else self.bounds(d)
            for w, g in ((lo, pc.minimum_value_for_part(p)), (hi, pc.maximum_value_for_part(p))):
                check(w is None or any((g is None) if x is None else (g is not None and float(g) == float(x)) for x in w), 'metadata', lambda: f'{d["title"]}: minimum or maximum given as {g}, not among {w}')
            if d['sl'] is not None and r.random() < 0.2:
                check(us(pc.string_lookup_for_part(p).uuid) == d['sl'], 'metadata', 'string lookup')
            tx = d['kind'] + (': ' + d['facet'] if d['facet'] else '') + (f'; timestep: {d["ti"]}' if d['ti'] is not None else '')
            check(pc.part_str(p, include_citation_title = False) == tx, 'metadata', lambda: f'part_str gives {pc.part_str(p)}')
        ds = [self.meta(s, u) for u in s.parts]

        def vals(k):
            return {d[k] for d in ds if d[k] is not None}

        for name, k in (('realization_list', 'realization'), ('property_kind_list', 'kind'), ('facet_type_list', 'facet_type'), ('facet_list', 'facet'), ('time_index_list', 'ti'), ('uom_list', 'uom'),
                        ('unique_indexable_element_list', 'ie')):
            w = sorted(vals(k))
            g = getattr(pc, name)(sort_list = True)
            check(list(g) == w, 'list', lambda: f'{name}: {g} instead of {w}')
            check(set(getattr(pc, name)(sort_list = False)) == set(w), 'list', name)
        check({us(x) for x in pc.time_series_uuid_list()} == vals('ts') and {us(x) for x in pc.string_lookup_uuid_list()} == vals('sl'), 'list', 'time series or string lookup uuids')
        check(sorted(pc.titles()) == sorted(d['title'] for d in ds), 'list', 'titles')
        check(not ds or pc.all_continuous() == all(d['continuous'] for d in ds) and pc.all_discrete() == all(not d['continuous'] for d in ds) and pc.all_count_one() == all(d['count'] == 1 for d in ds), 'flag',
              'all_continuous, all_discrete or all_count_one')
        self.flags(r, s, ds)

    def flags(self, r, s, ds):
        pc = s.pc
        want = dict(has_single_property_kind = len({d['kind'] for d in ds}) <= 1, has_single_indexable_element = len({d['ie'] for d in ds}) <= 1,
                    time_set_kind = 'single time' if all(d['ti'] is not None for d in ds) and len({(d['ts'], d['ti']) for d in ds}) <= 1 else 'not a time set')
        if not (any(d['uom'] is None for d in ds) and any(d['uom'] is not None for d in ds)):
            want['has_single_uom'] = len({d['uom'] for d in ds}) <= 1
        names = r.sample(sorted(want), r.randint(0, len(want)))
        for n in names:
            g = getattr(pc, n)()
            check(g == want[n], 'flag', lambda: f'{n}() is {g} for a collection for which it is {want[n]}')

    def op_set(self, r):
        s = self.pick(r)
        if s is None or not s.parts or s.sup is None or any(v for v in s.parts.values()):
            return
        ds = [self.meta(s, u) for u in s.parts]
        if len({d['realization'] for d in ds} - {None}) == 1:
            return  # asking for multiple realizations makes that number the collection's own
        node = s.pc.create_property_set_xml(zoo.title(r, 'set'))
        u = node.attrib['uuid']
        import resqpy.olio.xml_et as rqet
        got = (rqet.find_tag_text(node, 'TimeSetKind'), rqet.find_tag_bool(node, 'HasSinglePropertyKind'), rqet.find_tag_bool(node, 'HasMultipleRealizations'))
        want = ('single time' if all(d['ti'] is not None for d in ds) and len({(d['ts'], d['ti']) for d in ds}) <= 1 else 'not a time set', len({d['kind'] for d in ds}) <= 1,
                len({d['realization'] for d in ds} - {None}) > 1)
        check(got == want, 'property-set', lambda: f'a property set says {got} of a collection for which that is {want}')
        if want[2]:
            s.realization = None
        self.st['sets'].append(dict(uuid = u, members = list(s.parts), sup = s.sup))
        self.c.probe('property-sets')

    # arrays

    def readable(self, s, u):
        d = self.st['props'][u]
        return s.sup is not None or d['const'] is None and not d['packed'] and d['array'].dtype != bool

    def value(self, s, u):
        return s.cache[u] if u in s.cache else self.st['props'][u]['array']

    def right(self, s, u, got, what):
        w = self.value(s, u)
        check(got is not None, 'value', f'{what}: no array')
        check(eq(ma.getdata(got), w), 'value', lambda: f'{what}: {zoo.short(got)} instead of {zoo.short(w)}')
        if u not in s.cache:
            s.cache[u] = w.copy()

    def some(self, r, arrays = True):
        s = self.pick(r)
        if s is None or not s.parts:
            return None, None
        us_ = [u for u in s.parts if self.readable(s, u)]
        return (s, r.choice(us_)) if us_ else (None, None)

    def op_read(self, r):
        s, u = self.some(r)
        if s is None:
            return
        d, p, pc = self.meta(s, u), self.part(u), s.pc
        w = self.value(s, u)
        kw = {}
        if u not in s.cache and r.random() < 0.5:
            if d['continuous']:
                kw['dtype'] = r.choice(['float', float, np.float32, np.float64])
            elif d['array'].dtype == bool:
                kw['dtype'] = r.choice([bool, 'bool', int])
            else:
                kw['dtype'] = r.choice(['int', int, 'float', np.int32, np.int64])
        self.c.state(f'read:{d["fam"]}:{d["ie"]}:{d["count"]}:{d["packed"]}:{u in s.cache}:{kw.get("dtype")}:{d["const"] is None}')
        if r.random() < 0.3:
            sh, dt = self.trouble(r, lambda: pc.shape_and_type_of_part(p))
            check(tuple(sh) == w.shape or d['packed'] and u not in s.cache, 'value', lambda: f'shape of part: {sh} instead of {w.shape}')
        if r.random() < 0.35 and s.sup == 0:
            en = r.random() < 0.5
            a = self.trouble(r, lambda: pc.cached_part_array_ref(p, masked = True, exclude_null = en, **kw))
            self.right(s, u, a, f'masked {d["fam"]} {kw}')
            mask = np.zeros(w.shape, dtype = bool)
            if self.hidden(s) is not None and w.shape == self.inactive.shape:
                mask |= self.inactive
            if en and d['null'] not in (None, 'any'):
                mask |= np.isnan(num(w)) if d['continuous'] else num(w) == d['null']
            if d['null'] != 'any':
                check(np.array_equal(ma.getmaskarray(a), mask), 'mask', lambda: f'mask of {d["title"]} (null value {d["null"]}, excluded {en}) is not as it should be')
        else:
            a = self.trouble(r, lambda: pc.cached_part_array_ref(p, **kw))
            self.right(s, u, a, f'{d["fam"]} {d["ie"]} count {d["count"]} packed {d["packed"]} {kw}')
            check(pc.cached_part_array_ref(p) is a, 'value', 'a second call gives another array')
        self.c.probe('read')

    def hidden(self, s):
        """Inactive cells are an attribute of one grid object, not of others for the same grid."""
        return self.inactive if s.pc.support is self.sup[0] else None

    def op_mask(self, r):
        """Masks for any array of the right shape."""
        s = self.pick(r)
        if s is None or s.sup != 0:
            return
        pts = r.random() < 0.5
        g = zoo.nprng(r)
        a = g.randint(0, 4, size = self.ext + ((3,) if pts else ())) / 2
        if r.random() < 0.5:
            a.reshape(-1)[0] = np.nan
        ex = r.choice([None, 0, 0.5, 1.0, np.nan])
        inact = r.random() < 0.7
        got = s.pc.masked_array(a.copy(), exclude_inactive = inact, exclude_value = ex, points = pts)
        mask = np.zeros(a.shape, dtype = bool)
        if inact and self.hidden(s) is not None:
            mask |= self.inactive[..., None] if pts else self.inactive
        if ex is not None:
            mask |= np.isnan(a) if ex != ex else a == ex
        check(np.array_equal(ma.getmaskarray(got), mask), 'mask', lambda: f'masked_array(exclude_inactive {inact}, exclude_value {ex}, points {pts}) masks {ma.getmaskarray(got).sum()} elements instead of {mask.sum()}')
        check(eq(ma.getdata(got), a), 'mask', 'masking changes the values')

    def op_slice(self, r):
        s, u = self.some(r)
        if s is None:
            return
        d = self.st['props'][u]
        if d['const'] is not None or d['packed']:
            return
        a = d['array']
        t = tuple(slice(None) if r.random() < 0.3 else slice(x, r.randint(x + 1, n)) for n in a.shape for x in [r.randrange(n)])
        p = self.part(u)
        if r.random() < 0.6:
            if s.kind == 'gpc' and d['ie'] == 'cells' and a.ndim == 3 and r.random() < 0.6:
                box = np.array([[x.start or 0 for x in t], [(n if x.stop is None else x.stop) - 1 for x, n in zip(t, a.shape)]])
                got = self.trouble(r, lambda: s.pc.h5_slice_for_box(p, box))
            else:
                got = self.trouble(r, lambda: s.pc.h5_slice(p, t))
            check(got is not None and eq(got, a[t]), 'value', lambda: f'slice {t}: {zoo.short(got)} instead of {zoo.short(a[t])}')
            self.c.probe('sliced')
            return
        new = a[t].copy()
        g = zoo.nprng(r)
        if new.dtype == bool:
            new = ~new
        elif d['fam'] == 'cat':
            new = g.choice([0, 1, 2, 5], size = new.shape).astype(new.dtype)
        else:
            new = g.randint(0, 6, size = new.shape).astype(new.dtype)
        uc = r.random() < 0.6

        def refused():
            if u in s.cache:
                got = s.pc.cached_part_array_ref(p)
                check(eq(got, s.cache[u]) or eq(got, a), 'spoiled-cache', lambda: f'after an overwrite which was refused: {zoo.short(got)} instead of {zoo.short(s.cache[u])}')
                self.c.probe('overwrite-refused')

        self.trouble(r, lambda: s.pc.h5_overwrite_slice(p, t, new, update_cache = uc), spoil = False, after = refused, often = 4)
        self.m.h5_release()
        d['array'] = d['array'].copy()
        b = self.bounds(d)
        d['array'][t] = new
        d.setdefault('lo', b[0])
        d.setdefault('hi', b[1])
        if u in self.stored['props']:
            self.stored['props'][u].update({k: d[k] for k in ('array', 'lo', 'hi')})
            self.c.ack(self.stored)
        if u in s.cache:
            if uc:
                s.cache[u][t] = new
            else:
                del s.cache[u]
        self.c.probe('overwritten')

    def op_uncache(self, r):
        s = self.pick(r)
        if s is None:
            return
        if r.random() < 0.3:
            s.pc.remove_cached_part_arrays()
            s.cache = {u: a for u, a in s.cache.items() if u not in s.parts}
        elif s.parts:
            u = r.choice(list(s.parts))
            s.pc.uncache_part_array(self.part(u))
            s.cache.pop(u, None)
        if r.random() < 0.5:
            self.m.h5_release()

    def op_norm(self, r):
        s, u = self.some(r)
        if s is None:
            return
        d, p, pc = self.meta(s, u), self.part(u), s.pc
        if d['points'] or d['packed'] and u not in s.cache or d['const'] is not None and isinstance(d['const'], bool):
            return
        masked = r.random() < 0.4
        kw = dict(masked = masked, use_logarithm = r.random() < 0.25, trust_min_max = r.random() < 0.3)
        a = self.value(s, u)
        if not kw['use_logarithm'] and r.random() < 0.35:
            kw['fix_zero_at'] = r.choice([0.0, 0.25, 0.5, 1.0])
        if not d['continuous'] and a.dtype != bool and r.random() < 0.3:
            kw['discrete_cycle'] = r.choice([2, 3])
            kw.pop('fix_zero_at', None)
        v = num(a)
        keep = ~np.isnan(v)
        hide = np.zeros(v.shape, dtype = bool)
        if masked and s.sup == 0 and self.hidden(s) is not None and v.shape == self.inactive.shape:
            hide = self.inactive
        keep &= ~hide
        lo, hi = (d['lo'], d['hi']) if 'lo' in d else self.bounds(d)
        if kw['trust_min_max'] and (lo is None or hi is None or len(lo) > 1 or len(hi) > 1):
            kw['trust_min_max'] = False
        got, g0, g1 = self.trouble(r, lambda: pc.normalized_part_array(p, **kw))
        self.right(s, u, pc.cached_part_array_ref(p), 'after normalising')
        if kw['trust_min_max'] and lo[0] is not None and hi[0] is not None:
            x0, x1 = lo[0], hi[0]
        else:
            if np.any(keep):
                x0, x1 = v[keep].min(), v[keep].max()
            else:
                x0 = x1 = None
            s.parts[u]['lo'], s.parts[u]['hi'] = [x0], [x1]
        if x0 is None:
            check(got is None, 'normalised', lambda: f'{kw}: an array though there are no values')
            return
        if kw.get('discrete_cycle'):
            v = v % kw['discrete_cycle']
            x0, x1 = 0, kw['discrete_cycle'] - 1
        if kw['use_logarithm']:
            if x0 <= 0:
                v = np.where(v < 0.0001, 0.0001, v)
            with np.errstate(all = 'ignore'):
                v = np.log10(v)
            x0, x1 = v[keep].min(), v[keep].max()
        f = kw.get('fix_zero_at')
        if f is not None:
            if f <= 0.0 and x1 > 0:
                v, x0 = np.where(v < 0, 0.0, v), 0.0
            elif f >= 1.0 and x0 < 0:
                v, x1 = np.where(v > 0, 0.0, v), 0.0
            elif 0 < f < 1 and x0 <= 0 <= x1 and x0 < x1:
                if x1 / (1 - f) >= -x0 / f:
                    x0 = -x1 / (1 - f) * f
                else:
                    x1 = -x0 / f * (1 - f)
                v = np.clip(v, x0, x1)
            else:
                return
        if x1 < x0 or not np.isfinite(x0) or not np.isfinite(x1):
            return
        check(got is not None and abs(g0 - x0) < 1e-6 and abs(g1 - x1) < 1e-6, 'normalised', lambda: f'{kw}: range ({g0}, {g1}) instead of ({x0}, {x1})')
        w = np.full(v.shape, 0.5) if x1 == x0 else (v - x0) / (x1 - x0)
        w[np.isnan(num(a))] = np.nan
        check(np.allclose(ma.getdata(got)[~hide], w[~hide], equal_nan = True, atol = 1e-6), 'normalised', lambda: f'{kw}: {zoo.short(got)} instead of {zoo.short(w)}')
        if masked:
            check(np.array_equal(ma.getmaskarray(got), hide), 'normalised', lambda: f'{kw}: masks {ma.getmaskarray(got).sum()} elements instead of {hide.sum()}')
        self.c.probe('normalised')

    def op_assemble(self, r):
        """Arrays over realizations, time or facets."""
        import resqpy.property as rqp
        s = self.pick(r)
        if s is None or s.sup is None or not s.parts:
            return
        axis = r.choice(['realization', 'ti', 'facet'])
        us_ = [u for u in s.parts if self.meta(s, u)[axis] is not None]
        if not us_:
            return
        u = r.choice(us_)
        e = self.meta(s, u)
        keys = ['property_kind', 'title', 'indexable', 'continuous', 'points'] + [k for k in ('realization', 'ti', 'facet', 'ts', 'facet_type') if k != axis]
        crit = {}
        lk = self.like(s, u, keys)
        for k in keys:
            if k in lk:
                crit[k] = lk[k]
            elif k in ('facet', 'facet_type', 'ts'):
                crit[k] = 'none'
        crit['count'] = e['count']
        if e['uom']:
            crit['uom'] = e['uom']
        if s.realization is not None and crit.get('realization') not in (None, s.realization):
            return
        want = self.select(s, crit)
        ds = {v: self.meta(s, v) for v in want}
        xs = [d[axis] for d in ds.values()]
        if None in xs or len(set(xs)) != len(xs) or e['count'] > 1 or e['ie'] == 'faces' or any(d['const'] is not None and isinstance(d['const'], bool) for d in ds.values()):
            return
        if any(d['uom'] is None for d in ds.values()) and any(d['uom'] is not None for d in ds.values()):
            return
        pc = rqp.selective_version_of_collection(s.pc, **self.crit_args(crit))
        got = sorted(us(self.m.uuid_for_part(p)) for p in pc.parts())
        check(got == sorted(want), 'selection', lambda: f'{crit}: {len(got)} parts selected instead of {len(want)}')
        bit32 = r.random() < 0.4
        kw = dict(use_32_bit = bit32)
        vals = {d[axis]: self.st['props'][v]['array'] for v, d in ds.items()}
        lab = sorted(vals)
        if axis != 'facet':
            kw['fill_missing'] = r.random() < 0.6
            if r.random() < 0.4:
                kw['fill_value'] = r.choice([-5, 7])
            if kw['fill_missing']:
                lab = list(range(max(lab) + 1))
        if r.random() < 0.3:
            kw['indexable_element'] = e['ie']
        if r.random() < 0.3:
            pc.cached_part_array_ref(pc.parts()[0])
        name = dict(realization = 'realizations_array_ref', ti = 'time_series_array_ref', facet = 'facets_array_ref')[axis]
        a = self.trouble(r, lambda: getattr(pc, name)(**kw))
        fill = kw.get('fill_value', np.nan if e['continuous'] else -1)
        w = np.stack([num(vals[k]) if k in vals else np.full(e['array'].shape, float(fill)) for k in lab])
        check(eq(a, w), 'assembled', lambda: f'{name} {kw} of {e["fam"]} {e["ie"]} packed {[d["packed"] for d in ds.values()]}: {zoo.short(a)} instead of {zoo.short(w)}')
        check(a.dtype == {(True, True): np.float32, (True, False): np.float64, (False, True): np.int32, (False, False): np.int64}[(e['continuous'], bit32)], 'assembled', f'{name}: element type {a.dtype}')
        self.c.probe('assembled')
        self.c.state(f'asm:{axis}:{len(vals)}:{len(lab)}:{e["fam"]}:{e["ie"]}')

    def op_shape(self, r):
        """Arrays are to have shapes which depend on the object and its elements."""
        import resqpy.property as rqp
        sup = r.choice([0, 1, 1])
        pc = rqp.PropertyCollection()
        r.choice([lambda: pc.set_support(support = self.sup[sup]), lambda: pc.set_support(support_uuid = zoo.U(self.st['sup'][sup]), model = self.m)])()
        check(us(pc.support_uuid) == self.st['sup'][sup] and us(pc.support.uuid) == self.st['sup'][sup] and pc.number_of_parts() == 0, 'metadata', 'support of a new collection')
        ies = list(self.st['shapes']) if sup else ['cells', 'columns', 'layers', 'nodes', 'faces per cell', 'edges per column', 'I0', 'J0', 'faces', 'nodes per cell', 'column edges']
        for ie in ies:
            for direction in (None, 'K', 'J', 'I') if ie == 'faces' and not sup else (None,):
                got = pc.supporting_shape(indexable_element = ie, direction = direction)
                check(tuple(got) == self.shape(sup, ie, direction), 'metadata', lambda: f'{self.st["other"] if sup else "grid"}: shape {got} for {ie}, not {self.shape(sup, ie, direction)}')
        got = pc.supporting_shape()
        check(tuple(got) == self.shape(sup, ies[0]), 'metadata', lambda: f'{self.st["other"] if sup else "grid"}: default shape {got}, not {self.shape(sup, ies[0])}')
        self.c.probe('shapes')

    def op_logs(self, r):
        """Properties of the nodes of a wellbore frame as well logs."""
        if self.st['other'] != 'frame':
            return
        import resqpy.property as rqp
        rz = r.choice([None, None, 0, 1])
        f = opened('frame')(self.m, uuid = zoo.U(self.st['sup'][1]))  # frames keep the first collection made for them
        want = {u: d for u, d in self.st['props'].items() if d['sup'] == 1 and d['ie'] == 'nodes' and (rz is None or d['realization'] == rz)}
        lc = rqp.WellLogCollection(f, realization = rz) if rz is not None or r.random() < 0.5 else f.extract_log_collection()
        check({us(u) for u in lc.uuids()} == set(want) and lc.number_of_parts() == len(want), 'members', lambda: f'{lc.number_of_parts()} well logs found instead of {len(want)}')
        for log in lc.iter_logs():
            d = want[us(log.uuid)]
            check(log.title == d['title'] and log.uom == d['uom'], 'metadata', lambda: f'well log {log.title!r} in {log.uom} instead of {d["title"]!r} in {d["uom"]}')
            if d['const'] is None and d['array'].dtype != bool:
                check(eq(log.values(), d['array']), 'value', lambda: f'well log {log.title!r}: {zoo.short(log.values())} instead of {zoo.short(d["array"])}')
        if want and all(d['count'] == 1 and not d['points'] and d['const'] is None and d['array'].dtype != bool for d in want.values()):
            units = r.random() < 0.5
            df = lc.to_df(include_units = units)
            name = lambda d: d['title'] + (f' ({d["uom"]})' if units and d['uom'] else '')
            check(np.array_equal(np.array(df.index, dtype = float), np.arange(len(df)) * 3.0 + 4.0), 'value', 'measured depths of the data frame of well logs')
            for n in {name(d) for d in want.values()}:
                check(any(eq(np.array(df[n]), d['array']) for d in want.values() if name(d) == n), 'value', lambda: f'well log {n!r} of the data frame: {zoo.short(np.array(df[n]))}')
            check(set(df.columns) == {name(d) for d in want.values()}, 'members', lambda: f'well logs {list(df.columns)} of the data frame')
        if r.random() < 0.4:
            n = self.st['shapes']['nodes'][0]
            t, uom = r.choice(['log', 'GR', 'é log']), r.choice(['gAPI', 'mD', 'm'])
            disc = r.random() < 0.3
            a = zoo.nprng(r).randint(0, 80, size = n) / (1 if disc else 8)
            rz = r.choice([None, 2])
            a = a.astype(np.int64) if disc else a
            kind, ft, fc = rqp.infer_property_kind(t, uom)
            kw = dict(discrete = disc, realization = rz, source_info = r.choice(['', 'made']))
            before = {us(u) for u in self.m.uuids()}
            if r.random() < 0.3:
                lc.add_log(t, a.copy(), uom, write = False, **kw)
                lc.write_hdf5_for_imported_list()
                got = lc.create_xml_for_imported_list_and_add_parts_to_model()
            else:
                got = lc.add_log(t, a.copy(), uom, **kw)
            self.c.event('log', t, uom, disc, kind, ft, fc)
            check(len(got) == 1, 'members', f'{len(got)} logs added')
            lg = rqp.WellLogCollection(opened('frame')(self.m, uuid = zoo.U(self.st['sup'][1])))
            found = [x for x in lg.iter_logs() if us(x.uuid) == us(got[0])]
            check(len(found) == 1 and found[0].title == t and eq(found[0].values(), a) and (disc or found[0].uom == uom), 'value', lambda: f'well log {t!r} added is not found as it was')
            check(us(got[0]) in {us(u) for u in lc.uuids()} and got[0] not in before, 'members', 'a new log is not in the collection it was added to')
            self.m.remove_part(self.m.part_for_uuid(got[0]), remove_relationship_part = True)
        self.c.probe('logs')

    def op_property(self, r):
        """The same through a property object."""
        import resqpy.property as rqp
        if not self.st['props']:
            return
        u = r.choice(list(self.st['props']))
        d = self.st['props'][u]
        p = rqp.Property(self.m, uuid = zoo.U(u))
        got = dict(realization = p.realization(), continuous = p.is_continuous(), points = p.is_points(), count = p.count(), ie = p.indexable_element(), kind = p.property_kind(), facet_type = p.facet_type(),
                   facet = p.facet(), title = p.title, ts = us(p.time_series_uuid()), ti = p.time_index(), uom = p.uom(), sl = us(p.string_lookup_uuid()), const = p.constant_value(), null = p.null_value())
        want = {k: d[k] for k in got}
        if want['null'] == 'any':
            want['null'] = got['null']
        df = zoo.diff(want, got)
        check(df is None, 'metadata', lambda: f'property {d["title"]}: {df}')
        kw = dict(dtype = bool) if d['array'].dtype == bool else {}
        a = self.trouble(r, lambda: p.array_ref(**kw))
        check(eq(a, d['array']), 'value', lambda: f'property {d["title"]}: {zoo.short(a)} instead of {zoo.short(d["array"])}')

    def op_release(self, r):
        self.m.h5_release()

    def op_store(self, r):
        self.m.store_epc()
        self.m.h5_release()
        self.stored = copy.deepcopy(self.st)
        self.c.ack(self.stored)


OPS = ['new'] * 4 + ['import'] * 6 + ['flush', 'inherit', 'inherit', 'inherit', 'remove', 'add', 'add', 'drop', 'number', 'sample', 'sample'] + ['select'] * 5 + ['query'] * 5 + ['read'] * 6 + ['slice'] * 3 + \
    ['norm'] * 2 + ['assemble'] * 4 + ['uncache', 'uncache', 'shape', 'logs', 'logs', 'logs', 'set', 'mask', 'property', 'store', 'release']


class P(SaveProp):
    id = 'C14'
    quick_runs = 900
    thorough_runs = 9000
    rule = ('one evaluation is one seeded history of sessions in which collections of properties are made, imported into, inherited from, searched and read, some accesses to the hdf5 file meeting disk errors '
            'and refusals, sessions ending with or without a save; distinct by hash of the event log')
    state_measure = 'distinct (selection criteria, number of matches), (way of reading, family, element, count, packing, caching) and (assembly axis, extents, family) tuples'
    assumptions = ['arrays are written whole before an error is met again (what an interrupted HDF5 write leaves is the subject of C05)', 'one support for the arrays of a collection (collections over several supports are only searched and read)']

    def generate(self, rng, index, tier):
        big = tier != 'quick'
        ss = []
        for i in range(rng.randint(1, 3)):
            ops = [['new', rng.randrange(1 << 30)] for _ in range(2)]
            if i == 0:
                ops += [['import', rng.randrange(1 << 30)] for _ in range(rng.randint(1, 3))]
            ops += [[rng.choice(OPS), rng.randrange(1 << 30)] for _ in range(rng.randint(4, 60 if big else 30))]
            ss.append(dict(ops = ops, kill = rng.random() < 0.25))
        return dict(world = rng.randrange(1 << 30), other = rng.choice(OTHER), inactive = rng.random() < 0.6, trouble = rng.choice([0, 0.15, 0.5]), sessions = ss)

    def shrink_lists(self, plan):
        return [['sessions']] + [['sessions', i, 'ops'] for i in range(len(plan['sessions']))]

    def simplify(self, plan):
        for k, v in (('other', 'mesh'), ('inactive', False), ('trouble', 0)):
            if plan[k] not in (v, False):
                yield dict(plan, **{k: v})

    def session(self, c, plan, st, s):
        x = Session(c, plan, st)
        if st is None:
            x.op_store(None)
        for op, seed in s['ops']:
            getattr(x, 'op_' + op)(random.Random(seed))
            c.event(op, len(x.st['props']), [len(t.parts) for t in x.slots])
        if not s['kill']:
            for t in x.slots:
                if t.imports:
                    t.pc.remove_cached_imported_arrays()
                    t.pc.imported_list, t.imports = [], []
            x.op_store(None)
        return True

    def execute(self, plan, ctx):
        st = None
        for s in plan['sessions']:
            inc = ctx.process(self.session, plan, st, s)
            core.settle(inc)
            if inc.acks:
                st = inc.acks[-1]
        core.settle(ctx.process(self.last, plan, st))

    def last(self, c, plan, st):
        """A last session finds everything that was stored."""
        x = Session(c, dict(plan, trouble = 0), st)
        import resqpy.property as rqp
        for sup in (0, 1):
            s = Slot(rqp.PropertyCollection(support = x.sup[sup]), sup, {u: {} for u, d in x.st['props'].items() if d['sup'] == sup}, 'support')
            x.slots = [s]
            x.members(s, 'in a later session')
            x.op_query(random.Random(1))
            for u in s.parts:
                d = x.st['props'][u]
                kw = dict(dtype = bool) if d['array'].dtype == bool else {}
                x.right(s, u, s.pc.cached_part_array_ref(x.part(u), **kw), f'in a later session, {d["fam"]} {d["ie"]} packed {d["packed"]}')
        return True


PROP = P()

"""Functions which derive new objects from a stored dataset: what a user asks for, as seeded operations."""
import os
import random

import numpy as np

from . import zoo
from .zoo import nprng, title

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


class Told:
    """What the user of an operation knows of its outcome: the target epc and the values it was asked to write."""

    def __init__(self, target, uuid = None, **kw):
        self.target = target
        self.uuid = None if uuid is None else str(uuid)
        self.__dict__.update(kw)


def straight_cp(r, ext, throw = True, wedge = False):
    nk, nj, ni = ext
    k, j, i = np.mgrid[0:nk + 1, 0:nj + 1, 0:ni + 1]
    z = 1000.0 + k * 10.0
    if wedge:
        z = z + j * 3.0 * (1 + k) + i * 1.5
    base = np.stack((i * 100.0, j * 80.0, z), axis = -1)
    cp = np.empty((nk, nj, ni, 2, 2, 2, 3))
    for kp in range(2):
        for jp in range(2):
            for ip in range(2):
                cp[:, :, :, kp, jp, ip] = base[kp:nk + kp, jp:nj + jp, ip:ni + ip]
    if throw and ni > 1:
        cp[:, :, r.randint(1, ni - 1):, ..., 2] += round(r.uniform(1, 40), 1)
    return cp


def a_crs(m, r):
    from resqpy.crs import Crs
    c = Crs(m, title = title(r, 'crs'), x_offset = r.choice([0.0, 1e4]), z_inc_down = True, xy_units = 'm', z_units = 'm', rotation = r.choice([0.0, 0.3]))
    c.create_xml()
    return c.uuid


def build(c, name, spec):
    """In a simulated process: a dataset holding grids with properties, a surface, a well; returns what is recorded of it."""
    import resqpy.grid as grr
    import resqpy.property as rqp
    import resqpy.rq_import as rqi
    import resqpy.surface as rqs
    import resqpy.time_series as rqt
    import resqpy.well as rqw
    from .saving import new_model
    r = random.Random(spec['seed'])
    m = new_model(name + '.epc')
    cu = a_crs(m, r)
    ext = spec['ext']
    env = zoo.Env()
    salt = spec.get('salt', 0)
    grids = []
    n = 2 if spec['two'] else 1
    t0 = title(r, 'grid')
    for gi in range(n):
        t = t0 + (f' {gi}' if gi else '')
        if spec['regular'] and gi == 0:
            g = grr.RegularGrid(m, extent_kji = ext, dxyz = (100.0, 80.0, 10.0), origin = (0.0, 0.0, 1000.0), crs_uuid = cu, title = t, set_points_cached = True, as_irregular_grid = spec['regular'] == 2)
            if spec['regular'] == 2:
                g.grid_representation = 'IjkGrid'
                g.write_hdf5()
            g.create_xml(title = t, write_active = False, write_geometry = spec['regular'] == 2)
        else:
            cp = straight_cp(r, ext, spec['fault'], spec['wedge'])
            if gi:
                cp[..., 2] += 7.0
            act = nprng(r).rand(*ext) > 0.2
            act.reshape(-1)[0] = True
            g = rqi.grid_from_cp(m, cp, cu, active_mask = act if spec['inactive'] else np.ones(ext, dtype = bool), known_to_be_straight = True)
            g.title = t
            g.write_hdf5()
            g.create_xml(title = t)
        grids.append(g)
        pc = rqp.PropertyCollection()
        pc.set_support(support = g)
        ts = lk = None
        for p in spec['props']:
            q = random.Random(p['q'] + gi)
            pt = title(q, p['what'])
            kw = dict(source_info = 'made', keyword = pt, realization = p['real'], indexable_element = 'cells')
            if p['what'] == 'continuous':
                a = zoo.farr(q, ext, 0.05, 0.4) + salt * 1e-3
                rqp.Property.from_array(m, a, 'made', pt, g.uuid, property_kind = q.choice(['porosity', 'net to gross ratio', 'permeability rock']), indexable_element = 'cells', realization = p['real'],
                                        uom = None, facet_type = None)
            elif p['what'] == 'facet':
                a = zoo.farr(q, ext, 1, 900) + salt
                rqp.Property.from_array(m, a, 'made', pt, g.uuid, property_kind = 'rock permeability', indexable_element = 'cells', realization = p['real'], uom = 'mD', facet_type = 'direction', facet = q.choice('IJK'))
            elif p['what'] == 'discrete':
                a = zoo.iarr(q, ext, 0, 6) + salt
                rqp.Property.from_array(m, a, 'made', pt, g.uuid, property_kind = 'fluid', indexable_element = 'cells', discrete = True, null_value = -1, realization = p['real'])
            elif p['what'] == 'zone':
                a = np.empty(ext, dtype = int)
                a[:] = np.minimum(np.arange(ext[0]), q.choice([1, 2])).reshape((-1, 1, 1))
                rqp.Property.from_array(m, a, 'made', 'ZONE' + str(gi), g.uuid, property_kind = 'zone', indexable_element = 'cells', discrete = True, null_value = -1)
            elif p['what'] == 'categorical':
                if lk is None:
                    lk = rqp.StringLookup(m, int_to_str_dict = {0: 'sand', 1: 'mud & silt', 2: 'other'}, title = title(q, 'facies table'))
                    lk.create_xml()
                a = zoo.iarr(q, ext, 0, 3)
                rqp.Property.from_array(m, a, 'made', pt, g.uuid, property_kind = 'facies', indexable_element = 'cells', discrete = True, string_lookup_uuid = lk.uuid, realization = p['real'])
            elif p['what'] == 'recurrent':
                if ts is None:
                    ts = rqt.TimeSeries(m, first_timestamp = '2020-01-01', title = title(q, 'steps'))
                    ts.extend_by_days(30)
                    ts.extend_by_days(30)
                    ts.create_xml()
                a = zoo.farr(q, ext, 0, 1)
                rqp.Property.from_array(m, a, 'made', pt, g.uuid, property_kind = 'saturation', indexable_element = 'cells', time_series_uuid = ts.uuid, time_index = q.randrange(3), uom = 'm3/m3', realization = p['real'])
            elif p['what'] == 'local kind':
                a = zoo.farr(q, ext, 0, 1)
                rqp.Property.from_array(m, a, 'made', pt, g.uuid, property_kind = 'my own kind', indexable_element = 'cells', uom = 'Euc', realization = p['real'])
            elif p['what'] == 'const':
                rqp.Property.from_array(m, None, 'made', pt, g.uuid, property_kind = 'porosity', indexable_element = 'cells', const_value = round(q.uniform(0.1, 0.3), 3), realization = p['real'])
            elif p['what'] == 'points':
                a = zoo.farr(q, ext + [3] if isinstance(ext, list) else tuple(ext) + (3,), 0, 1)
                rqp.Property.from_array(m, a, 'made', pt, g.uuid, property_kind = 'position', indexable_element = 'cells', points = True, realization = p['real'], uom = 'm')
            elif p['what'] == 'columns':
                a = zoo.farr(q, ext[1:], 0, 1)
                rqp.Property.from_array(m, a, 'made', pt, g.uuid, property_kind = 'thickness', indexable_element = 'columns', realization = p['real'], uom = 'm')
    x1, y1 = ext[2] * 100.0 + 150.0, ext[1] * 80.0 + 150.0
    pts = np.array([[-150.0, -150.0, 990.0], [x1, -150.0, 1003.0], [x1, y1, 1030.0], [-150.0, y1, 1001.0]])
    s = rqs.Surface(m, crs_uuid = cu, title = title(r, 'base'))
    s.set_from_triangles_and_points(np.array([[0, 1, 2], [0, 2, 3]], dtype = int), pts)
    s.write_hdf5()
    s.create_xml()
    dt = rqw.MdDatum(m, crs_uuid = cu, location = (120.0, 90.0, 900.0), md_reference = 'kelly bushing')
    dt.create_xml()
    tr = rqw.Trajectory(m, md_datum = dt, data_frame = None, well_name = title(r, 'W'), length_uom = 'm')
    tr.crs_uuid = cu
    tr.measured_depths = np.array([0.0, 60.0, 220.0])
    tr.control_points = np.array([[120.0, 90.0, 900.0], [120.0, 90.0, 960.0], [130.0, 95.0, 1120.0]])
    tr.knot_count = 3
    tr.start_md, tr.finish_md = 0.0, 220.0
    tr.md_uom, tr.md_domain, tr.line_kind_index = "m", "driller", 5
    tr.write_hdf5()
    tr.create_feature_and_interpretation()
    tr.create_xml()
    bw = None
    if not spec['regular']:
        bw = rqw.BlockedWell(m, grid = grids[0], trajectory = tr)
        if bw.cell_count:
            while r.random() < 0.4:  # part of the way is in no cell
                i = r.randrange(bw.node_count - 1)
                x = bw.node_mds[i] + (bw.node_mds[i + 1] - bw.node_mds[i]) * r.uniform(0.2, 0.8)
                bw.node_mds = np.insert(bw.node_mds, i + 1, x)
                bw.grid_indices = np.insert(bw.grid_indices, i + r.choice([0, 1]), -1)
                bw.node_count += 1
            bw.write_hdf5()
            bw.create_xml(title = 'blocked')
        else:
            bw = None
    for k, sd in spec['others']:
        env.make(m, k, sd)
    m.store_epc()
    m.h5_release()
    with open('wells.csv', 'w') as f:
        f.write('# a file of wells\nWELL,MD,X,Y,Z\n')
        for w in range(r.randint(1, 3)):
            for q in range(r.randint(2, 4)):
                f.write(f'W{w},{q * 100.0},{w * 50.0 + q},{q * 2.0},{900.0 + q * 100.0}\n')
    return env


def gen_spec(rng, big):
    kinds = ['continuous', 'continuous', 'discrete', 'categorical', 'recurrent', 'facet', 'zone', 'local kind', 'const']
    return dict(seed = rng.randrange(1 << 30), ext = [rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)], two = rng.random() < 0.3, regular = rng.choice([0, 0, 0, 1, 2]), fault = rng.random() < 0.6,
                wedge = rng.random() < 0.4, inactive = rng.random() < 0.6,
                props = [dict(what = rng.choice(kinds), real = rng.choice([None, None, 0, 1]), q = rng.randrange(1 << 30)) for _ in range(rng.randint(0, 6 if big else 4))],
                others = [[rng.choice(['pointset', 'polyline_set', 'wellbore_feature', 'string_lookup', 'surface', 'time_series']), rng.randrange(1 << 30)] for _ in range(rng.randint(0, 2))])


# ------------------------------------------------------------------ operations: f(m, r, epc, new) -> Told
# m: a model freshly opened on epc; new: name of a new epc to write to, or None

def ijk(m, shape = None):
    return sorted((str(u) for u in m.uuids(obj_type = 'IjkGridRepresentation')), key = lambda u: (m.title(uuid = u) or '', tuple(m.grid(uuid = u, find_properties = False).extent_kji), u))


def a_grid(m, r):
    return m.grid(uuid = r.choice(ijk(m)))


def inherit(r):
    if r.random() < 0.3:
        return {}
    return dict(inherit_properties = True, inherit_realization = r.choice([None, None, 0]), inherit_all_realizations = r.random() < 0.4)


def nt(r):
    return r.choice([None, title(r, 'derived')])


def src(m, r, epc):
    """Arguments naming the source: the object, or nothing where there is just one."""
    g = a_grid(m, r)
    if len(ijk(m)) == 1 and r.random() < 0.4:
        return g, None
    return g, g


@op
def add_property(m, r, epc, new):
    import resqpy.derived_model as rqdm
    g = a_grid(m, r)
    what = r.choice(['continuous', 'continuous', 'discrete', 'categorical', 'recurrent', 'const', 'columns', 'layers', 'facet', 'int64', 'own kind'])
    ext = tuple(g.extent_kji)
    t = title(r, 'new ' + what)
    kw = dict(property_kind = 'porosity', title = t, realization = r.choice([None, 0, 3]), extra_metadata = zoo.meta(r), source_info = 'sim')
    e = dict(title = t, real = kw['realization'], kind = 'porosity', uom = None, disc = False)
    if what in ('discrete', 'int64'):
        a = zoo.iarr(r, ext, 0, 6)
        kw.update(discrete = True, property_kind = 'fluid', null_value = -1)
        if what == 'int64':
            a = a.astype(np.int64) + (1 << 40)
            kw.update(use_int32 = False)
        e.update(kind = 'fluid', disc = True)
    elif what == 'categorical':
        lks = [u for u in m.uuids(obj_type = 'StringTableLookup')]
        if new is not None or not lks:
            lks = [None]
        a = zoo.iarr(r, ext, 0, 3)
        kw.update(discrete = True, property_kind = 'facies', string_lookup_uuid = lks[0])
        e.update(kind = 'facies', disc = True, lookup = None if lks[0] is None else str(lks[0]))
    elif what == 'recurrent':
        tss = m.uuids(obj_type = 'TimeSeries')
        a = zoo.farr(r, ext, 0, 1)
        if tss and new is None:
            import resqpy.time_series as rqt
            kw.update(time_series_uuid = tss[0], time_index = rqt.any_time_series(m, uuid = tss[0]).number_of_timestamps() - 1)
            e.update(ts = str(tss[0]), ti = kw['time_index'])
        kw.update(property_kind = 'saturation', uom = 'm3/m3')
        e.update(kind = 'saturation', uom = 'm3/m3')
    elif what == 'const':
        a = None
        kw.update(const_value = 0.25, expand_const_arrays = r.random() < 0.5)
    elif what in ('columns', 'layers'):
        a = zoo.farr(r, ext[1:] if what == 'columns' else ext[:1], 0, 1)
        kw.update(indexable_element = what)
    elif what == 'facet':
        a = zoo.farr(r, ext, 0, 1)
        kw.update(property_kind = 'permeability rock', uom = 'mD', facet_type = 'direction', facet = 'K')
        e.update(kind = 'rock permeability', uom = 'mD', facet = 'K')
    elif what == 'own kind':
        a = zoo.farr(r, ext, 0, 1)
        kw.update(property_kind = 'entirely mine', uom = 'Euc')
        e.update(kind = 'entirely mine', uom = 'Euc')
    else:
        a = zoo.farr(r, ext, 0, 1)
    e['extra'] = dict(kw['extra_metadata'])
    e['a'] = np.full(ext, 0.25) if a is None else a.copy()
    u = rqdm.add_one_grid_property_array(epc, a, grid_uuid = g.uuid if r.random() < 0.7 or len(ijk(m)) > 1 else None, new_epc_file = new, **kw)
    return Told(new or epc, u, prop = e)


@op
def add_edges_property(m, r, epc, new):
    import resqpy.derived_model as rqdm
    g = a_grid(m, r)
    if g.is_regular if hasattr(g, 'is_regular') else False:
        pass
    t = title(r, 'edges')
    a = zoo.farr(r, tuple(g.extent_kji[1:]) + (2, 2), 0, 1)
    u = rqdm.add_edges_per_column_property_array(epc, a.copy(), 'multiplier', grid_uuid = g.uuid, title = t, uom = 'Euc', new_epc_file = new)
    return Told(new or epc, u)


@op
def add_blocked_well_property(m, r, epc, new):
    import resqpy.derived_model as rqdm
    import resqpy.well as rqw
    us = m.uuids(obj_type = 'BlockedWellboreRepresentation')
    if not us or new:
        return None
    bw = rqw.BlockedWell(m, uuid = us[0])
    t = title(r, 'bwp')
    a = zoo.farr(r, (bw.cell_count,), 0, 1)
    u = rqdm.add_one_blocked_well_property(epc, a.copy(), 'porosity', us[0], title = t, realization = r.choice([None, 1]))
    return Told(epc, u, bwprop = dict(title = t, a = a))


def a_blocked_well(m):
    import resqpy.well as rqw
    us = m.uuids(obj_type = 'BlockedWellboreRepresentation')
    return rqw.BlockedWell(m, uuid = us[0]) if us else None


@op
def blocked_well_from_grid(m, r, epc, new):
    """Properties of the cells a well goes through."""
    if new:
        return None
    bw = a_blocked_well(m)
    if bw is None:
        return None
    g = bw.grid_list[0]
    of = sorted((str(m.uuid_for_part(p)) for t in ('ContinuousProperty', 'DiscreteProperty', 'CategoricalProperty') for p in m.parts(obj_type = t)
                 if str(m.supporting_representation_for_part(p)) == str(g.uuid)), key = lambda u: (m.title(uuid = u) or '', u))
    if not of:
        return None
    us = r.sample(of, r.randint(1, len(of)))
    before = set(str(u) for u in m.uuids())
    bw.add_grid_property_to_blocked_well([zoo.U(u) for u in us])
    m.store_epc()
    return Told(epc, from_grid = us, made = sorted(set(str(u) for u in m.uuids()) - before), bw = str(bw.uuid))


@op
def blocked_well_from_frame(m, r, epc, new):
    """Perforation properties of a frame, passed on to the cells of a blocked well."""
    import resqpy.property as rqp
    import resqpy.time_series as rqt
    import resqpy.well as rqw
    if new:
        return None
    bw = a_blocked_well(m)
    if bw is None:
        return None
    lo, hi = float(bw.node_mds[0]), float(bw.node_mds[-1])
    x = sorted(round(r.uniform(lo - 0.4 * (hi - lo), hi + 0.4 * (hi - lo)), 3) for _ in range(r.randint(2, 9)))
    if r.random() < 0.3:
        x = sorted(x + [float(v) for v in r.sample(list(bw.node_mds), r.randint(1, len(bw.node_mds)))])
    x = [max(v, 0.0) for v in x]
    x = [v for i, v in enumerate(x) if i == 0 or v > x[i - 1] + 1e-3]
    if len(x) < 2:
        return None
    f = rqw.WellboreFrame(m, trajectory = bw.trajectory, mds = x, title = title(r, 'perforations'))
    f.write_hdf5()
    f.create_xml()
    n, rz = len(x) - 1, r.choice([None, None, 2])
    e = dict(mds = [float(v) for v in x], active = [r.random() < 0.6 for _ in range(n)], rz = rz, kinds = {})
    ts = None

    def prop(kind, a, uom = None, **kw):
        t = title(r, kind)
        rqp.Property.from_array(m, np.array(a), 'sim', t, f.uuid, property_kind = kind, indexable_element = 'intervals', uom = uom, realization = rz, **kw)
        e['kinds'].setdefault(kind, []).append(dict(t = t, a = [float(v) for v in a], ti = kw.get('time_index')))

    prop('active', [int(v) for v in e['active']], discrete = True)
    if r.random() < 0.5:
        prop('wellbore radius', zoo.farr(r, n, 0.1, 0.4, nan = True), 'm')
    if r.random() < 0.5:
        prop('permeability length', zoo.farr(r, n, 1, 5000, nan = True), 'mD.m')
    if r.random() < 0.5:
        prop('skin', zoo.farr(r, n, -5, 10, nan = True), 'Euc')
    if r.random() < 0.3:
        prop('length', zoo.farr(r, n, 1, 5), 'm')
    if r.random() < 0.4:
        us = m.uuids(obj_type = 'TimeSeries')
        if us:
            ts = rqt.any_time_series(m, uuid = us[0])
            for ti in sorted(r.sample(range(ts.number_of_timestamps()), r.randint(1, ts.number_of_timestamps()))):
                prop('well connection open', [int(a and r.random() < 0.6) for a in e['active']], discrete = True, time_series_uuid = ts.uuid, time_index = ti)
            e['ts'] = str(ts.uuid)
    kinds = None if r.random() < 0.6 else [k for k in sorted(e['kinds']) if r.random() < 0.7] or ['active']
    kw = dict(set_length = r.choice([None, True, False]), set_perforation_fraction = r.choice([None, True, False]), set_frame_interval = r.random() < 0.5)
    us = bw.add_properties_from_wellbore_frame(frame_uuid = f.uuid, property_kinds_list = kinds, realization = rz, **kw)
    m.store_epc()
    return Told(epc, from_frame = e, wanted = kinds, options = kw, made = [str(u) for u in us], bw = str(bw.uuid), frame = str(f.uuid))


@op
def add_zone_by_layer(m, r, epc, new):
    import resqpy.derived_model as rqdm
    g = a_grid(m, r)
    z = sorted(r.randrange(4) for _ in range(g.nk))
    if new:
        return None
    _, u = rqdm.add_zone_by_layer_property(epc, grid_uuid = g.uuid, zone_by_layer_vector = list(z), title = title(r, 'zones'), use_local_property_kind = r.random() < 0.7)
    return Told(epc, u, zones = z, twice = True)


@op
def extract_box(m, r, epc, new):
    import resqpy.derived_model as rqdm
    g, s = src(m, r, epc)
    if g.grid_representation != 'IjkGrid' and new is None:
        return None
    lo = [r.randrange(n) for n in g.extent_kji]
    hi = [r.randint(l, n - 1) for l, n in zip(lo, g.extent_kji)]
    box = np.array([lo, hi])
    inh = inherit(r)
    g2 = rqdm.extract_box(epc, s, box = box, new_grid_title = nt(r), new_epc_file = new, **inh)
    return Told(new or epc, g2.uuid, source = str(g.uuid), box = box, inh = inh)


@op
def refined_grid(m, r, epc, new):
    import resqpy.derived_model as rqdm
    import resqpy.olio.fine_coarse as rqfc
    g, s = src(m, r, epc)
    if g.grid_representation != 'IjkGrid':
        return None
    f = [r.choice([1, 1, 2, 3]) for _ in range(3)]
    fc = rqfc.FineCoarse([int(n) * x for n, x in zip(g.extent_kji, f)], [int(n) for n in g.extent_kji])
    fc.set_all_ratios_constant()
    fc.set_all_proportions_equal()
    inh = inherit(r)
    g2 = rqdm.refined_grid(epc, s, fc, new_grid_title = nt(r), new_epc_file = new, **inh)
    return Told(new or epc, g2.uuid, source = str(g.uuid), refine = f, inh = inh)


@op
def coarsened_grid(m, r, epc, new):
    import resqpy.derived_model as rqdm
    import resqpy.olio.fine_coarse as rqfc
    g, s = src(m, r, epc)
    if g.grid_representation != 'IjkGrid' or g.has_split_coordinate_lines:
        return None
    f = [r.choice([x for x in (1, 2, 3, 4) if n % x == 0]) for n in g.extent_kji]
    fc = rqfc.FineCoarse([int(n) for n in g.extent_kji], [int(n) // x for n, x in zip(g.extent_kji, f)])
    fc.set_all_ratios_constant()
    fc.set_all_proportions_equal()
    inh = inherit(r)
    g2 = rqdm.coarsened_grid(epc, s, fc, new_grid_title = nt(r), new_epc_file = new, **inh)
    return Told(new or epc, g2.uuid, source = str(g.uuid), coarsen = f, inh = inh)


@op
def tilted_grid(m, r, epc, new):
    import resqpy.derived_model as rqdm
    g, s = src(m, r, epc)
    if g.grid_representation != 'IjkGrid':
        return None
    inh = inherit(r)
    g2 = rqdm.tilted_grid(epc, s, pivot_xyz = (0.0, 0.0, 1000.0), azimuth = r.uniform(0, 360), dip = r.uniform(-20, 20), store_displacement = r.random() < 0.4, new_grid_title = nt(r), new_epc_file = new, **inh)
    return Told(new or epc, g2.uuid, source = str(g.uuid), rigid = True, inh = inh)


@op
def unsplit_grid(m, r, epc, new):
    import resqpy.derived_model as rqdm
    g, s = src(m, r, epc)
    if g.grid_representation != 'IjkGrid' or not g.has_split_coordinate_lines:
        return None
    inh = inherit(r)
    g2 = rqdm.unsplit_grid(epc, s, new_grid_title = nt(r), new_epc_file = new, **inh)
    return Told(new or epc, g2.uuid, source = str(g.uuid), unsplit = True, inh = inh)


@op
def drape_to_surface(m, r, epc, new):
    import resqpy.derived_model as rqdm
    import resqpy.surface as rqs
    us = [u for u in m.uuids(obj_type = 'TriangulatedSetRepresentation') if (m.title(uuid = u) or '').startswith('base')]
    if not us:
        return None
    g, s = src(m, r, epc)
    if g.grid_representation != 'IjkGrid':
        return None
    inh = inherit(r)
    g2 = rqdm.drape_to_surface(epc, s, surface = rqs.Surface(m, uuid = us[0]), scaling_factor = r.choice([None, None, 0.5]), ref_k0 = r.randrange(g.nk), ref_k_faces = r.choice(['top', 'base']),
                               store_displacement = r.random() < 0.4, new_grid_title = nt(r), new_epc_file = new, **inh)
    return Told(new or epc, g2.uuid, source = str(g.uuid), inh = inh)


@op
def zonal_grid(m, r, epc, new):
    import resqpy.derived_model as rqdm
    g, s = src(m, r, epc)
    cut = sorted(r.sample(range(1, g.nk), min(g.nk - 1, r.randint(0, 2)))) if g.nk > 1 else []
    e = sorted({r.choice([0, 0, r.randrange(g.nk)]), int(g.nk)} | set(cut))
    if r.random() < 0.3 and len(e) > 2:
        e.pop()
    zl = [(a, b - 1, i + 3) for i, (a, b) in enumerate(zip(e, e[1:]))]
    g2 = rqdm.zonal_grid(epc, s, zone_layer_range_list = zl, inactive_laissez_faire = r.random() < 0.5, new_grid_title = nt(r), new_epc_file = new)
    return Told(new or epc, g2.uuid, source = str(g.uuid), layers = zl)


@op
def single_layer_grid(m, r, epc, new):
    import resqpy.derived_model as rqdm
    g, s = src(m, r, epc)
    k0 = r.randrange(g.nk)
    k1 = r.randint(k0, g.nk - 1)
    g2 = rqdm.single_layer_grid(epc, s, k0_min = k0, k0_max = k1, new_grid_title = nt(r), new_epc_file = new)
    return Told(new or epc, g2.uuid, source = str(g.uuid), layers = [(k0, k1, 0)])


@op
def local_depth_adjustment(m, r, epc, new):
    import resqpy.derived_model as rqdm
    g, s = src(m, r, epc)
    if g.grid_representation != 'IjkGrid':
        return None
    inh = inherit(r)
    g2 = rqdm.local_depth_adjustment(epc, s, centre_x = 110.0, centre_y = 70.0, radius = r.uniform(50, 300), centre_shift = r.uniform(-5, 5), use_local_coords = True, decay_shape = r.choice(['quadratic', 'linear']),
                                     store_displacement = r.random() < 0.4, new_grid_title = nt(r), new_epc_file = new, **inh)
    if g2 is None:
        return None
    return Told(new or epc, g2.uuid, source = str(g.uuid), inh = inh)


@op
def global_fault_throw_scaling(m, r, epc, new):
    import resqpy.derived_model as rqdm
    g, s = src(m, r, epc)
    if not g.has_split_coordinate_lines:
        return None
    inh = inherit(r)
    g2 = rqdm.global_fault_throw_scaling(epc, s, scaling_factor = r.choice([0.0, 0.5, 2.0]), store_displacement = r.random() < 0.4, new_grid_title = nt(r), new_epc_file = new, **inh)
    return Told(new or epc, g2.uuid, source = str(g.uuid), inh = inh, twice = bool(m.uuids(obj_type = 'GridConnectionSetRepresentation', related_uuid = g.uuid)))


@op
def interpolated_grid(m, r, epc, new):
    import resqpy.derived_model as rqdm
    us = ijk(m)
    a = m.grid(uuid = r.choice(us))
    if a.grid_representation != 'IjkGrid':
        return None
    bs = [u for u in us if u != str(a.uuid)]
    bs = [u for u in bs if m.grid(uuid = u, find_properties = False).grid_representation == 'IjkGrid' and tuple(m.grid(uuid = u, find_properties = False).extent_kji) == tuple(a.extent_kji)]
    if not bs:
        return None
    b = m.grid(uuid = r.choice(bs))
    if a.grid_is_right_handed != b.grid_is_right_handed:
        return None
    inh = inherit(r)
    f = r.choice([0.0, 0.25, 1.0])
    g2 = rqdm.interpolated_grid(epc, a, b, a_to_b_0_to_1 = f, new_grid_title = nt(r), new_epc_file = new, **inh)
    return Told(new or epc, g2.uuid, source = str(a.uuid), also = str(b.uuid), part = f, inh = inh)


@op
def add_faults(m, r, epc, new):
    import resqpy.derived_model as rqdm
    import resqpy.lines as rql
    g, s = src(m, r, epc)
    if g.ni < 2 or g.has_split_coordinate_lines:
        return None
    x = 100.0 * r.randint(1, g.ni - 1) + 3.0
    pl = rql.Polyline(m, set_coord = np.array([[x, -200.0, 1000.0], [x, g.nj * 80.0 + 200.0, 1000.0]]), set_crs = g.crs_uuid, is_closed = False, title = title(r, 'fault line'))
    inh = inherit(r)
    g2 = rqdm.add_faults(epc, s, polylines = [pl], left_right_throw_dict = {pl.title: (5.0, -2.0)} if r.random() < 0.5 else None, create_gcs = r.random() < 0.7, new_grid_title = nt(r), new_epc_file = new, **inh)
    return Told(new or epc, g2.uuid, source = str(g.uuid), inh = inh, twice = True)


@op
def add_wells(m, r, epc, new):
    import resqpy.derived_model as rqdm
    n = rqdm.add_wells_from_ascii_file(epc, r.choice([None, m.crs_uuid]), 'wells.csv', drilled = r.random() < 0.5, new_epc_file = new)
    return Told(new or epc, wells = n, copies = True)


@op
def extract_box_for_well(m, r, epc, new):
    import resqpy.derived_model as rqdm
    g, s = src(m, r, epc)
    if g.grid_representation != 'IjkGrid' and new is None:
        return None
    us = m.uuids(obj_type = 'WellboreTrajectoryRepresentation')
    us = [u for u in us if (m.title(uuid = u) or '').startswith('W ')]
    kw = dict(column_ji0 = (r.randrange(g.nj), r.randrange(g.ni)))
    if us and r.random() < 0.5:
        kw = dict(trajectory_uuid = us[0])
    inh = inherit(r)
    iw = r.random() < 0.5
    if 'column_ji0' in kw:
        g.extract_inactive_mask()
        j, i = kw['column_ji0']
        iw = iw and (g.inactive is None or not np.all(g.inactive[:, j, i]))
    g2, box = rqdm.extract_box_for_well(epc, s, radius = r.choice([None, 120.0]), active_cells_shape = r.choice(['tube', 'prism', 'box']), inherit_well = iw, new_grid_title = nt(r), new_epc_file = new, **inh, **kw)
    if g2 is None:
        return None
    return Told(new or epc, g2.uuid, source = str(g.uuid), inh = inh, box = np.array(box), masked = True, twice = True)


@op
def gather(m, r, epc, new):
    import resqpy.derived_model as rqdm
    if new is None:
        return None
    import resqpy.model as rq
    if epc == 'src.epc' and os.path.exists('twin.epc') and len(rq.Model('twin.epc').uuids()) == len(m.uuids()) and r.random() < 0.8:
        cases, alike, differ = ['src.epc'] + ['twin.epc'] * r.randint(0, 1), True, True
        if r.random() < 0.5:
            cases.reverse()
    else:
        n = r.randint(1, 3)
        alike, differ = r.random() < 0.5 or not os.path.exists('case.epc'), False
        cases = [epc] * n if alike else [epc] + ['case.epc'] * (n - 1)
    ts = alike and r.random() < 0.7
    rqdm.gather_ensemble(cases, new, consolidate = r.random() < 0.7, shared_grids = alike and r.random() < 0.7, shared_time_series = ts, create_epc_lookup = r.random() < 0.7)
    return Told(new, cases = cases if differ else [epc])


@op
def single_cell(m, r, epc, new):
    import resqpy.derived_model as rqdm
    if new is None:
        return None
    g = rqdm.add_single_cell_grid(zoo.farr(r, (r.randint(2, 6), 3), 0, 500), new_grid_title = title(r, 'one cell'), new_epc_file = new)
    return Told(new, g.uuid, one = True)


# ------------------------------------------------------------------ what derived objects must say

def cells_of(m, gu):
    """{(title, realization, facet, time index): (array, info)} for the properties of a grid's cells, as lists."""
    import resqpy.property as rqp
    d = {}
    for p in m.parts(obj_type = 'ContinuousProperty') + m.parts(obj_type = 'DiscreteProperty') + m.parts(obj_type = 'CategoricalProperty'):
        u = m.uuid_for_part(p)
        s = m.supporting_representation_for_part(p)
        if s is None or str(s) != str(gu):
            continue
        o = rqp.Property(m, uuid = u)
        if o.indexable_element() != 'cells' or o.property_kind() == 'active':
            continue
        a = o.array_ref()
        k = (o.title, o.realization(), o.facet(), o.time_index(), o.property_kind())
        d.setdefault(k, []).append((np.array(a), o.is_continuous(), o.uom(), None if o.string_lookup_uuid() is None else str(o.string_lookup_uuid()), None if o.time_series_uuid() is None else str(o.time_series_uuid()), str(u)))
    return d


def verify_gathered(c, name, t, m, check):
    import resqpy.model as rq
    if not t.cases:
        return
    got = {}
    for gu in ijk(m):
        for k, v in cells_of(m, gu).items():
            got.setdefault((k[0], k[1], k[4]), []).extend(v)
    for i, case in enumerate(t.cases):
        cm = rq.Model(case)
        for gu in ijk(cm):
            for k, v in cells_of(cm, gu).items():
                for x in v:
                    w = [y for y in got.get((k[0], i, k[4]), ()) if zoo.same(x[0], y[0]) and x[1:3] == y[1:3] and (x[3] is None) == (y[3] is None) and (x[4] is None) == (y[4] is None)]
                    check(w, 'wrong-values', lambda: f'{name}: property "{k[0]}" of case {i} is not in the ensemble: {[y[0].reshape(-1)[:5].tolist() for y in got.get((k[0], i, k[4]), ())]} not {x[0].reshape(-1)[:5].tolist()}')
                    c.probe('gathered-properties-verified')


def verify_wells(c, name, t, m, check):
    import resqpy.well as rqw
    rows = {}
    for line in open('wells.csv').read().split('\n')[2:]:
        if line:
            w, *v = line.split(',')
            rows.setdefault(w, []).append([float(x) for x in v])
    check(t.wells[1] == len(rows) if isinstance(t.wells, tuple) else True, 'wrong-values', lambda: f'{name}: {t.wells} wells of {len(rows)}')
    for w, v in rows.items():
        v = np.array(v)
        ok = False
        for u in m.uuids(obj_type = 'WellboreTrajectoryRepresentation', title = w):
            o = rqw.Trajectory(m, uuid = u)
            ok = ok or zoo.same(o.measured_depths, v[:, 0]) and zoo.same(o.control_points, v[:, 1:]) and o.well_name == w
        check(ok, 'wrong-values', lambda: f'{name}: no trajectory of well {w} as in the file')
        c.probe('wells-verified')


def verify_from_grid(c, name, t, m, check):
    import resqpy.property as rqp
    import resqpy.well as rqw
    bw = rqw.BlockedWell(m, uuid = zoo.U(t.bw))
    kji = bw.cell_indices_kji0()
    says = lambda p: (p.title, p.property_kind(), p.is_continuous(), p.uom(), p.realization(), p.facet_type(), p.facet(), p.time_index(), *(None if u is None else str(u) for u in
                      (p.string_lookup_uuid(), p.time_series_uuid(), p.local_property_kind_uuid())))
    left = [rqp.Property(m, uuid = zoo.U(u)) for u in t.made]
    for u in t.from_grid:
        p = rqp.Property(m, uuid = zoo.U(u))
        if p.indexable_element() != 'cells':
            continue
        a = p.array_ref()
        a = a[tuple(kji.T)]
        w = [q for q in left if says(q) == says(p) and q.indexable_element() == 'cells' and zoo.same(np.array(a), np.array(q.array_ref()))]
        check(w, 'wrong-values', lambda: f'{name}: no property of the blocked well like {says(p)} {a.tolist()[:5]} but {[says(q) + (q.array_ref().tolist()[:5],) for q in left if q.title == p.title]}')
        check(str(m.supporting_representation_for_part(w[0].part)) == t.bw, 'wrong-values', lambda: f'{name}: property {p.title!r} is not of the blocked well')
        left.remove(w[0])
        c.probe('well-properties-verified')
    check(not left, 'wrong-values', lambda: f'{name}: properties not asked for: {[says(q) for q in left]}')


def verify_from_frame(c, name, t, m, check):
    import resqpy.property as rqp
    import resqpy.well as rqw
    bw = rqw.BlockedWell(m, uuid = zoo.U(t.bw))
    e, f = t.from_frame, t.from_frame['mds']
    tops = [bw.node_mds[bw.interval_for_cell(i)] for i in range(bw.cell_count)]
    ends = [bw.node_mds[bw.interval_for_cell(i) + 1] for i in range(bw.cell_count)]
    over = np.array([[max(0.0, min(b, f[j + 1]) - max(a, f[j])) for j in range(len(f) - 1)] for a, b in zip(tops, ends)])  # length of each cell in each interval
    near = np.array([[min(b, f[j + 1]) - max(a, f[j]) > -1e-9 for j in range(len(f) - 1)] for a, b in zip(tops, ends)])  # ... or touching it
    sure = over > 1e-9
    act = np.array(e['active'])
    got = [rqp.Property(m, uuid = zoo.U(u)) for u in t.made]
    kinds = [k for k in e['kinds'] if t.wanted is None or k in t.wanted]
    sl = t.options['set_length'] if t.options['set_length'] is not None else 'length' in kinds
    sp = t.options['set_perforation_fraction'] if t.options['set_perforation_fraction'] is not None else not sl and 'permeability length' not in kinds
    length = (over * act).sum(axis = 1)
    want = []  # (kind, title, uom, time index, lowest, highest)

    def expect(kind, t_, uom, ti, a, b = None):
        want.append((kind, t_, uom, ti, np.array(a, dtype = float), np.array(a if b is None else b, dtype = float)))

    if t.options['set_frame_interval']:
        best = [max([over[i, j] for j in range(len(act)) if act[j]] or [0.0]) for i in range(len(tops))]
        expect('wellbore frame interval', 'wellbore frame interval', None, None, [-1] * len(tops), [len(act) - 1] * len(tops))
    if sl:
        expect('length', 'LENGTH', 'm', None, length)
    if sp:
        expect('perforation fraction', 'PPERF', 'm/m', None, length / (np.array(ends) - np.array(tops)))
    for k in kinds:
        for p in e['kinds'][k]:
            v = np.array(p['a'])
            with np.errstate(all = 'ignore'):
                if k in ('active', 'well connection open'):
                    expect(k, p['t'], None, p['ti'], (sure & (v > 0)).any(axis = 1), (near & (v > 0)).any(axis = 1))
                elif k == 'wellbore radius':
                    hi = [np.nanmax(np.append(v[near[i]], np.nan)) if np.any(~np.isnan(v[near[i]])) else np.nan for i in range(len(tops))]
                    lo = [np.nanmax(v[sure[i]]) if np.any(~np.isnan(v[sure[i]])) else np.nan for i in range(len(tops))]
                    expect(k, p['t'], 'm', None, lo, hi)
                elif k == 'permeability length':
                    expect(k, p['t'], 'mD.m', None, np.nansum(np.where(sure, over / np.diff(f) * v, 0.0), axis = 1))
                elif k == 'skin':
                    w = np.where(np.isnan(v), 0.0, over)
                    a = (w * np.where(np.isnan(v), 0.0, v)).sum(axis = 1) / w.sum(axis = 1)
                    touched = np.isnan(a) & (near & ~np.isnan(v)).any(axis = 1)  # merely: a contribution of no length, or none
                    expect(k, p['t'], 'Euc', None, a, np.where(touched, 0.0, a))
    check(len(got) == len(want), 'wrong-values', lambda: f'{name}: {[(p.title, p.property_kind()) for p in got]} made, not {[(w[1], w[0]) for w in want]} ({t.wanted}, {t.options})')
    for k, t_, uom, ti, lo, hi in want:
        ps = [p for p in got if p.property_kind() == k and p.title == t_ and p.time_index() == ti]
        check(len(ps) == 1, 'wrong-values', lambda: f'{name}: no property {t_!r} of kind {k}, time index {ti}, but {[(p.title, p.property_kind(), p.time_index()) for p in got]}')
        p = ps[0]
        check(p.realization() == e['rz'] and p.indexable_element() == 'cells' and str(m.supporting_representation_for_part(p.part)) == t.bw and (uom is None or p.uom() == uom), 'wrong-values',
              lambda: f'{name}: {k}: realization {p.realization()}, of {p.indexable_element()}, in {p.uom()}')
        if ti is not None:
            check(str(p.time_series_uuid()) == e['ts'], 'wrong-values', lambda: f'{name}: time series of {t_!r}')
        a = np.array(p.array_ref(), dtype = float)
        ok = (a >= lo - 1e-6 * np.maximum(1.0, np.abs(lo))) & (a <= hi + 1e-6 * np.maximum(1.0, np.abs(hi))) | np.isnan(a) & np.isnan(lo) | np.isnan(lo) & (a <= hi + 1e-6)
        check(a.shape == lo.shape and np.all(ok), 'wrong-values', lambda: f'{name}: {k}: {a.tolist()} not from {lo.tolist()} to {hi.tolist()}: cells {list(zip(tops, ends))}, frame {e}')
        if k == 'wellbore frame interval':
            for i, j in enumerate(a.astype(int)):
                check(best[i] < 1e-9 if j < 0 else act[j] and over[i, j] >= best[i] - 1e-9, 'wrong-values', lambda: f'{name}: cell {i} {tops[i], ends[i]} is not mostly in interval {j} of {f}, active {e["active"]}')
            check(zoo.U(t.frame) in m.uuids(related_uuid = p.uuid), 'wrong-values', lambda: f'{name}: the frame is not related to the property of its intervals')
        c.probe('well-properties-verified')


def mask_passed(m, g, inh):
    """Whether the property holding the mask of inactive cells is among those to be inherited."""
    if not inh:
        return False
    if g.active_property_uuid is None:
        return True
    import resqpy.property as rqp
    q, r = rqp.Property(m, uuid = g.active_property_uuid).realization(), inh['inherit_realization']
    return r is None and inh['inherit_all_realizations'] or q == r


def verify(c, name, t, sm, m, check):
    import resqpy.grid as grr
    import resqpy.property as rqp
    what = lambda x: (lambda: f'{name}: {x}')
    if getattr(t, 'prop', None):
        e = t.prop
        p = rqp.Property(m, uuid = zoo.U(t.uuid))
        a = p.array_ref()
        check(a is not None and np.array_equal(np.asarray(a, dtype = float), np.asarray(e['a'], dtype = float if not e['disc'] else e['a'].dtype).astype(float)) or zoo.same(e['a'], a), 'wrong-values', what('array of added property'))
        got = dict(title = p.title, real = p.realization(), kind = p.property_kind(), disc = not p.is_continuous())
        got['kind'] = 'rock permeability' if got['kind'] == 'permeability rock' else got['kind']
        for k, v in got.items():
            check(v == e[k], 'wrong-values', lambda: f'{name}: {k} of added property is {v}, not {e[k]}')
        if e.get('uom'):
            check(p.uom() == e['uom'], 'wrong-values', lambda: f'{name}: uom {p.uom()} not {e["uom"]}')
        check(p.facet() == e.get('facet'), 'wrong-values', lambda: f'{name}: facet {p.facet()}')
        for k, v in e['extra'].items():
            check((p.extra_metadata or {}).get(k) == v, 'wrong-values', lambda: f'{name}: extra metadata {p.extra_metadata}, not {e["extra"]}')
        if 'lookup' in e and e['lookup']:
            check(str(p.string_lookup_uuid()) == e['lookup'], 'wrong-values', what('string lookup of added property'))
        if 'ts' in e:
            check(str(p.time_series_uuid()) == e['ts'] and p.time_index() == e['ti'], 'wrong-values', what('time series of added property'))
        c.probe('added-properties-verified')
        return
    if getattr(t, 'bwprop', None):
        p = rqp.Property(m, uuid = zoo.U(t.uuid))
        check(p.title == t.bwprop['title'] and zoo.same(t.bwprop['a'], p.array_ref()), 'wrong-values', what('blocked well property'))
        return
    if hasattr(t, 'zones'):
        p = rqp.Property(m, uuid = zoo.U(t.uuid))
        g = m.grid(uuid = m.supporting_representation_for_part(m.part_for_uuid(zoo.U(t.uuid))))
        a = np.asarray(p.array_ref())
        if p.indexable_element() == 'layers':
            check(list(a) == t.zones, 'wrong-values', lambda: f'{name}: zones {a} not {t.zones}')
        else:
            check(np.all(a == np.array(t.zones).reshape((-1, 1, 1))), 'wrong-values', what('zones'))
        return
    if hasattr(t, 'cases'):
        verify_gathered(c, name, t, m, check)
        return
    if hasattr(t, 'wells'):
        verify_wells(c, name, t, m, check)
        return
    if hasattr(t, 'from_grid'):
        verify_from_grid(c, name, t, m, check)
        return
    if hasattr(t, 'from_frame'):
        verify_from_frame(c, name, t, m, check)
        return
    if not hasattr(t, 'source'):
        return
    if t.uuid is None:
        return
    g = m.grid(uuid = zoo.U(t.uuid))
    s = sm.grid(uuid = zoo.U(t.source))
    check(g is not None, 'wrong-values', what('derived grid not found'))
    sx, gx = tuple(int(x) for x in s.extent_kji), tuple(int(x) for x in g.extent_kji)
    for x in (s, g):
        x.extract_inactive_mask()
    si = np.zeros(sx, dtype = bool) if s.inactive is None else s.inactive.astype(bool)
    gi = np.zeros(gx, dtype = bool) if g.inactive is None else g.inactive.astype(bool)
    if getattr(t, 'also', None):
        b = sm.grid(uuid = zoo.U(t.also))
        b.extract_inactive_mask()
        si = si & b.inactive.astype(bool) if b.inactive is not None else np.zeros(sx, dtype = bool)
    box = getattr(t, 'box', None)
    if box is not None:
        sl = tuple(slice(int(a), int(b) + 1) for a, b in zip(box[0], box[1]))
        pick = lambda a: a[sl]
    elif hasattr(t, 'refine'):
        def pick(a):
            for ax in range(3):
                a = np.repeat(a, t.refine[ax], axis = ax)
            return a
    elif hasattr(t, 'coarsen') or hasattr(t, 'layers'):
        pick = None
    else:
        pick = lambda a: a
    cs, cg = s.corner_points(), g.corner_points()
    if str(g.crs_uuid) != str(s.crs_uuid):
        cs = np.array(cs, order = 'C')
        s.crs.convert_array_to(g.crs, cs.reshape((-1, 3)))
    if box is not None:
        check(gx == tuple(int(b - a + 1) for a, b in zip(box[0], box[1])), 'wrong-values', lambda: f'{name}: extent {gx}')
        check(np.array_equal(np.nan_to_num(cg), np.nan_to_num(pick(cs))), 'wrong-values', what('geometry of the box differs from that of the source'))
    elif hasattr(t, 'refine'):
        f = t.refine
        check(gx == tuple(a * b for a, b in zip(sx, f)), 'wrong-values', lambda: f'{name}: extent {gx}')
        for kp in range(2):
            for jp in range(2):
                for ip in range(2):
                    x = cg[kp * (f[0] - 1)::f[0], jp * (f[1] - 1)::f[1], ip * (f[2] - 1)::f[2], kp, jp, ip]
                    check(np.allclose(x, cs[:, :, :, kp, jp, ip], atol = 1e-6), 'wrong-values', what('corners of the refined cells are not those of the source'))
    elif hasattr(t, 'coarsen'):
        f = t.coarsen
        check(gx == tuple(a // b for a, b in zip(sx, f)), 'wrong-values', lambda: f'{name}: extent {gx}')
        for kp in range(2):
            for jp in range(2):
                for ip in range(2):
                    x = cs[kp * (f[0] - 1)::f[0], jp * (f[1] - 1)::f[1], ip * (f[2] - 1)::f[2], kp, jp, ip]
                    check(np.allclose(x, cg[:, :, :, kp, jp, ip], atol = 1e-6), 'wrong-values', what('corners of the coarse cells are not those of the source'))
    elif hasattr(t, 'layers'):
        check(gx == (len(t.layers),) + sx[1:], 'wrong-values', lambda: f'{name}: extent {gx}')
        for z, (k0, k1, _) in enumerate(t.layers):
            check(np.allclose(cg[z, :, :, 0], cs[k0, :, :, 0], equal_nan = True) and np.allclose(cg[z, :, :, 1], cs[k1, :, :, 1], equal_nan = True), 'wrong-values', what('zones are not bounded by the layers asked for'))
    elif hasattr(t, 'also'):
        check(np.allclose(cg, (1.0 - t.part) * cs + t.part * b.corner_points(), atol = 1e-6), 'wrong-values', what('not between the two grids'))
    elif hasattr(t, 'rigid'):
        e0, e1 = cs.reshape((-1, 8, 3)), cg.reshape((-1, 8, 3))
        for a in range(8):
            for b in range(a):
                d0, d1 = np.linalg.norm(e0[:, a] - e0[:, b], axis = 1), np.linalg.norm(e1[:, a] - e1[:, b], axis = 1)
                check(np.allclose(d0, d1, rtol = 1e-6, atol = 1e-5), 'wrong-values', what('tilting is not rigid'))
    elif hasattr(t, 'unsplit'):
        check(not g.has_split_coordinate_lines, 'wrong-values', what('still split'))
    if hasattr(t, 'refine') and not mask_passed(sm, s, t.inh):
        pass  # the mask of inactive cells is passed on as a property
    elif pick is not None and not hasattr(t, 'masked'):
        check(np.array_equal(gi, pick(si)), 'wrong-values', lambda: f'{name}: inactive cells: {np.argwhere(gi).tolist()} not {np.argwhere(pick(si)).tolist()} {t.inh}')
    elif hasattr(t, 'masked'):
        check(np.all(gi | ~pick(si)), 'wrong-values', what('inactive cells of the source are active in the box'))
    c.probe('derived-grids-verified')
    inh = getattr(t, 'inh', None)
    if inh is None:
        return
    a, b = cells_of(sm, t.source), cells_of(m, t.uuid)
    if inh.get('inherit_properties'):
        for k, v in a.items():
            if inh['inherit_all_realizations'] and inh['inherit_realization'] is None or k[1] == inh['inherit_realization']:
                check(len(b.get(k, [])) >= len(v), 'property-not-inherited', lambda: f'{name}: property {k} of the source is not in {sorted(map(str, b))}')
    if not any(k[0].endswith('_DISPLACEMENT') for k in a):
        d = g.centre_point() - s.centre_point() if sx == gx else None
        for k, v in b.items():
            if k[0].endswith('_DISPLACEMENT'):
                check(np.allclose(v[0][0], d[..., 'XYZ'.index(k[0][1])], atol = 1e-6), 'wrong-values', what(f'property {k[0]}'))
                c.probe('displacements-verified')
    for k, v in b.items():
        if k not in a:
            continue
        w = a[k]
        if k[4] in ('rock volume', 'cell length') or k[0].endswith('_DISPLACEMENT'):
            continue
        for x in v:
            ok = False
            if any(y[0].dtype.kind == 'i' and np.any(np.abs(y[0]) >= 1 << 31) for y in w):
                continue  # 64 bit integers are stored as 32 bit ones unless asked otherwise
            for y in w:
                if x[1:5] != y[1:5]:
                    continue
                if pick is not None:
                    ok = ok or zoo.same(pick(y[0]), x[0]) or np.allclose(pick(y[0]), x[0], equal_nan = True)
                else:
                    q = x[0].astype(float)
                    lo, hi = np.nanmin(y[0]), np.nanmax(y[0])
                    ok = ok or bool(np.all((q >= lo - 1e-6) & (q <= hi + 1e-6) | np.isnan(q) | (q == -1)))
            check(ok, 'wrong-values', lambda: f'{name}: inherited property {k}: {x[0].reshape(-1)[:6].tolist()} {x[1:5]} from {[(y[0].reshape(-1)[:6].tolist(), y[1:5]) for y in w]}')
            c.probe('inherited-properties-verified')

"""More of the zoo (see zoo.py): rarer classes of object and rarer parts of common ones."""

import numpy as np

from .core import check
from .zoo import U, common, depth_crs, farr, iarr, kind, meta, nprng, reader, title


# ------------------------------------------------------------------ interpretations with a time of occurrence, throws

def _units(m, r, env, n):
    return [env.get(m, 'strat_unit_feature', r) for _ in range(n)]


@kind('generic_interpretation', ('boundary_feature',))
def _(m, r, env):
    import resqpy.organize as rqo
    fu = env.get(m, r.choice(['boundary_feature', 'geobody_feature']), r)
    t, em, d = title(r, 'generic'), meta(r), r.choice(['depth', 'time', 'mixed'])
    o = rqo.GenericInterpretation(m, title = t, feature_uuid = U(fu), domain = d, extra_metadata = em)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, domain = d, feature = fu)


@reader('generic_interpretation')
def _(m, u, e):
    import resqpy.organize as rqo
    o = rqo.GenericInterpretation(m, uuid = u)
    return dict(common(o), domain = o.domain, feature = str(o.feature_uuid))


@kind('geologic_unit_interp', ('geologic_unit_feature',))
def _(m, r, env):
    import resqpy.organize as rqo
    from resqpy.strata import GeologicUnitInterpretation
    f = rqo.GeologicUnitFeature(m, uuid = U(env.get(m, 'geologic_unit_feature', r)))
    t, em = title(r, 'gui'), meta(r)
    kw = dict(domain = r.choice(['depth', 'time', 'mixed']), composition = r.choice([None, 'intrusive clay', 'organic']), material_implacement = r.choice([None, 'autochtonous', 'allochtonous']))
    o = GeologicUnitInterpretation(m, title = t, geologic_unit_feature = f, extra_metadata = em, **kw)
    o.create_xml()
    return o.uuid, dict(kw, title = t, extra = em, feature = str(f.uuid))


@reader('geologic_unit_interp')
def _(m, u, e):
    from resqpy.strata import GeologicUnitInterpretation
    o = GeologicUnitInterpretation(m, uuid = u)
    return dict(common(o), domain = o.domain, composition = o.composition, material_implacement = o.material_implacement, feature = str(o.geologic_unit_feature.uuid))


@kind('bounded_unit', ('strat_unit_feature',))
def _(m, r, env):
    """A stratigraphic unit feature which refers to the units below and above."""
    from resqpy.strata import StratigraphicUnitFeature
    b, a = _units(m, r, env, 2)
    if r.random() < 0.3:
        a = None
    elif r.random() < 0.3:
        b = None
    t, em = title(r, 'unit'), meta(r)
    o = StratigraphicUnitFeature(m, title = t, bottom_unit_uuid = None if b is None else U(b), top_unit_uuid = None if a is None else U(a), extra_metadata = em)
    o.create_xml(reuse = False)
    return o.uuid, dict(title = t, extra = em, bottom = b, top = a)


@reader('bounded_unit')
def _(m, u, e):
    from resqpy.strata import StratigraphicUnitFeature
    o = StratigraphicUnitFeature(m, uuid = u)
    return dict(common(o), bottom = None if o.bottom_unit_uuid is None else str(o.bottom_unit_uuid), top = None if o.top_unit_uuid is None else str(o.top_unit_uuid))


def _pair(p):
    return None if p is None or p == (None, None) else tuple(None if x is None else str(x) for x in p)


@kind('dated_fault', ('tectonic_boundary_feature', 'strat_unit_feature'))
def _(m, r, env):
    """A fault interpretation with its time of occurrence and the kinds of throw in several periods."""
    import resqpy.organize as rqo
    f = rqo.TectonicBoundaryFeature(m, uuid = U(env.get(m, 'tectonic_boundary_feature', r)))
    t, em = title(r, 'dated'), meta(r)
    us = _units(m, r, env, 2)
    o = rqo.FaultInterpretation(m, tectonic_boundary_feature = f, title = t, is_normal = True, domain = 'depth', extra_metadata = em)
    main = (us[0], us[1]) if r.random() < 0.6 else None
    if main:
        o.main_has_occurred_during = main
    throws = []
    for i in range(r.randint(0, 4)):
        throws.append((r.choice(['reverse', 'normal', 'thrust', 'strike and slip', 'scissor', 'variable']), r.choice([(us[0], us[1]), (us[0], us[0]), (None, None)])))
    if throws:
        o.throw_interpretation_list = list(throws)
    o.create_xml(reuse = False)
    return o.uuid, dict(title = t, extra = em, main = _pair(main), throws = [(a, _pair(b)) for a, b in throws], feature = str(f.uuid))


@reader('dated_fault')
def _(m, u, e):
    import resqpy.organize as rqo
    o = rqo.FaultInterpretation(m, uuid = u)
    return dict(common(o), main = _pair(o.main_has_occurred_during), throws = [(a, _pair(b)) for a, b in (o.throw_interpretation_list or [])], feature = str(o.tectonic_boundary_feature.uuid))


@kind('contact_rank', ('strat_unit_interp', 'organization_feature', 'horizon_interpretation'))
def _(m, r, env):
    """A stratigraphic column rank with the contacts between its units, made by horizons."""
    import resqpy.organize as rqo
    from resqpy.strata import StratigraphicColumnRank
    import resqpy.strata._strata_common as rqstc
    ft = title(r, 'emf')
    f = rqo.OrganizationFeature(m, feature_name = ft, organization_kind = 'earth model')
    f.create_xml()
    of = str(f.uuid)
    env.objs.append(('organization_feature', of, dict(title = ft, extra = {}, kind = 'earth model')))
    n = r.randint(2, 4)
    units = [env.make(m, 'strat_unit_interp', r.randrange(1 << 30)) for _ in range(n)]
    hz = [env.make(m, 'horizon_interpretation', r.randrange(1 << 30)) for _ in range(n - 1)]
    t, em, ri = title(r, 'crank'), meta(r), r.randrange(4)
    o = StratigraphicColumnRank(m, domain = r.choice(['depth', 'time']), rank_index = ri, earth_model_feature_uuid = U(of), strata_uuid_list = [U(u) for u in units],
                                title = t, extra_metadata = em)
    modes = (r.choice([None] + sorted(rqstc.valid_contact_modes)), r.choice([None] + sorted(rqstc.valid_contact_modes)))
    o.set_contacts_from_horizons([U(u) for u in hz], older_contact_mode = modes[0], younger_contact_mode = modes[1])
    o.create_xml(reuse = False)
    exp = [(i, units[i], units[i + 1], hz[i], modes[0], modes[1]) for i in range(n - 1)]
    return o.uuid, dict(title = t, extra = em, index = ri, units = units, domain = o.domain, contacts = exp, feature = of)


@reader('contact_rank')
def _(m, u, e):
    from resqpy.strata import StratigraphicColumnRank
    o = StratigraphicColumnRank(m, uuid = u)
    return dict(common(o), index = o.index, units = [str(x[1].uuid) for x in o.units], domain = o.domain, feature = str(o.feature_uuid),
                contacts = [(c.index, str(c.subject_uuid), str(c.direct_object_uuid), None if c.part_of_uuid is None else str(c.part_of_uuid), c.subject_contact_mode, c.direct_object_contact_mode)
                            for c in o.contacts])


# ------------------------------------------------------------------ grids

def _plain_grid(m, r, cu, t, ext, gap = None):
    import resqpy.grid as grr
    g = grr.RegularGrid(m, extent_kji = ext, dxyz = (50.0, 40.0, 5.0), crs_uuid = cu, title = t, set_points_cached = True)
    p = g.points_cached
    p[..., 2] += farr(r, p.shape[1:3], 0, 30)
    p[..., :2] += farr(r, p.shape[1:3] + (2,), 0, 8)
    g.grid_representation = 'IjkGrid'
    return g


@kind('layered_grid', ('crs', 'strat_rank'))
def _(m, r, env):
    """An ijk grid, possibly with gaps between layers, whose layers are mapped to the units of a column."""
    import resqpy.grid as grr
    cu = depth_crs(m, r, env)
    t = title(r, 'layers')
    nk, nj, ni = r.randint(3, 6), r.randint(1, 3), r.randint(1, 3)
    g = _plain_grid(m, r, cu, t, (nk, nj, ni))
    gaps = None
    if r.random() < 0.6:
        gaps = np.zeros(nk - 2, dtype = bool)
        gaps[r.randrange(nk - 2)] = True
        g.nk -= 1
        g.extent_kji = np.array((g.nk, nj, ni), dtype = int)
        g.k_gaps = 1
        g.k_gap_after_array = gaps.copy()
        g._set_k_raw_index_array()
    ru, su = None, None
    if r.random() < 0.7:
        ru = env.get(m, 'strat_rank', r)
        su = np.sort(iarr(r, nk, 0, 4))[::-1].copy()
        g.stratigraphic_column_rank_uuid = U(ru)
        g.stratigraphic_units = su.copy()
    pts = g.points_cached.copy()
    g.write_hdf5_from_caches(write_active = False, stratigraphy = True)
    g.create_xml(title = t, write_geometry = True, write_active = False, use_lattice = False)
    return g.uuid, dict(title = t, crs = str(cu), ext = tuple(int(x) for x in g.extent_kji), pts = pts, gaps = gaps, raw = [int(k) for k in g.k_raw_index_array] if gaps is not None else None,
                        rank = ru, units = su)


@reader('layered_grid')
def _(m, u, e):
    import resqpy.grid as grr
    o = grr.any_grid(m, uuid = u)
    o.extract_stratigraphy()
    return dict(title = o.title, crs = str(o.crs_uuid), ext = tuple(o.extent_kji), pts = o.points_ref(masked = False), gaps = o.k_gap_after_array if o.k_gaps else None,
                raw = [int(k) for k in o.k_raw_index_array] if o.k_gaps else None,
                rank = None if o.stratigraphic_column_rank_uuid is None else str(o.stratigraphic_column_rank_uuid), units = o.stratigraphic_units)


def _window(fc):
    return dict(fine = tuple(int(x) for x in fc.fine_extent_kji), coarse = tuple(int(x) for x in fc.coarse_extent_kji),
                fbox = None if fc.within_fine_box is None else np.array(fc.within_fine_box), cbox = None if fc.within_coarse_box is None else np.array(fc.within_coarse_box),
                ratios = [[int(fc.ratio(a, c)) for c in range(fc.coarse_extent_kji[a])] for a in range(3)],
                props = [[np.round(np.array(fc.proportion(a, c), dtype = float), 9).tolist() for c in range(fc.coarse_extent_kji[a])] for a in range(3)])


@kind('local_grid', ('regular_grid',))
def _(m, r, env):
    """A grid which is a refinement or a coarsening of a box of another."""
    import resqpy.grid as grr
    import resqpy.olio.fine_coarse as rqfc
    pu = env.get(m, 'regular_grid', r)
    ge = env.expect(pu)
    pe = ge['ext']
    t = title(r, 'local')
    box = np.zeros((2, 3), dtype = int)
    for a in range(3):
        box[0, a] = r.randrange(pe[a])
        box[1, a] = r.randrange(box[0, a], pe[a])
    be = tuple(int(x) for x in box[1] - box[0] + 1)
    refine = r.random() < 0.6
    if refine:
        ratios = [[r.randint(1, 3) for _ in range(be[a])] for a in range(3)]
        for a in range(3):
            if r.random() < 0.5:
                ratios[a] = [r.randint(1, 3)] * be[a]
        ext = tuple(sum(x) for x in ratios)
        fc = rqfc.FineCoarse(ext, be, within_coarse_box = box.copy())
    else:
        ratios = []
        for a in range(3):
            left, x = be[a], []
            while left:
                x.append(r.randint(1, min(left, 3)))
                left -= x[-1]
            ratios.append(x)
        ext = tuple(len(x) for x in ratios)
        fc = rqfc.FineCoarse(be, ext, within_fine_box = box.copy())
    for a in range(3):
        if len(set(ratios[a])) == 1:
            fc.set_constant_ratio(a)
        else:
            fc.set_ratio_vector(a, np.array(ratios[a]))
        if refine and r.random() < 0.3 and sum(ratios[a]) > len(ratios[a]):
            ps = []
            for n in ratios[a]:
                v = np.array([r.uniform(0.2, 1.0) for _ in range(n)])
                ps.append(v / np.sum(v))
            fc.set_proportions_list_of_vectors(a, ps)
        else:
            fc.set_equal_proportions(a)
    fc.assert_valid()
    g = _plain_grid(m, r, U(ge['crs']), t, ext)
    refine = refine or be == ext  # as is taken where there is no difference
    g.set_parent(U(pu), refine, fc)
    if refine:
        fc2 = fc if fc.within_coarse_box is not None else None
    else:
        fc2 = fc
    if fc2 is None:
        fc2 = rqfc.FineCoarse(ext, be, within_coarse_box = box.copy())
        fc2.set_all_ratios_constant()
        fc2.set_all_proportions_equal()
        g.parent_window = fc2
    pts = g.points_cached.copy()
    g.write_hdf5_from_caches(write_active = False)
    g.create_xml(title = t, write_geometry = True, write_active = False, use_lattice = False)
    return g.uuid, {'title': t, 'crs': ge['crs'], 'ext': ext, 'pts': pts, 'parent': pu, 'refine': refine or be == ext, 'window~': _window(fc2)}


@reader('local_grid')
def _(m, u, e):
    import resqpy.grid as grr
    o = grr.any_grid(m, uuid = u)
    return {'title': o.title, 'crs': str(o.crs_uuid), 'ext': tuple(o.extent_kji), 'pts': o.points_ref(masked = False), 'parent': str(o.parent_grid_uuid), 'refine': o.is_refinement,
            'window~': _window(o.parent_window)}


@kind('holed_grid', ('crs',))
def _(m, r, env):
    """An ijk grid of which some cells and pillars have no geometry."""
    import resqpy.grid as grr
    cu = depth_crs(m, r, env)
    t = title(r, 'holed')
    nk, nj, ni = r.randint(1, 3), r.randint(3, 4), r.randint(3, 4)
    g = _plain_grid(m, r, cu, t, (nk, nj, ni))
    cells = nprng(r).rand(nk, nj, ni) > 0.3
    j, i = r.randrange(nj), r.randrange(ni)
    cells[:, j, i] = False
    cells[:, 1, 1] = True  # lazy.py asks about these
    pillars = np.ones((nj + 1, ni + 1), dtype = bool)
    if r.random() < 0.5:  # take a corner pillar away, with its cells
        j, i = r.choice([0, nj]), r.choice([0, ni])
        pillars[j, i] = False
        cells[:, min(j, nj - 1), min(i, ni - 1)] = False
        g.points_cached[:, j, i] = np.nan
    g.array_cell_geometry_is_defined = cells.copy()
    g.geometry_defined_for_all_cells_cached = bool(cells.all())
    g.array_pillar_geometry_is_defined = pillars.copy()
    g.geometry_defined_for_all_pillars_cached = bool(pillars.all())
    pts = g.points_cached.copy()
    g.write_hdf5_from_caches(write_active = False)
    g.create_xml(title = t, write_geometry = True, write_active = False, use_lattice = False)
    return g.uuid, dict(title = t, crs = str(cu), ext = (nk, nj, ni), pts = pts, cells = cells, pillars = pillars)


@reader('holed_grid')
def _(m, u, e):
    import resqpy.grid as grr
    o = grr.any_grid(m, uuid = u)
    nk, nj, ni = o.extent_kji
    c = np.array([o.cell_geometry_is_defined((k, j, i)) for k in range(nk) for j in range(nj) for i in range(ni)]).reshape((nk, nj, ni)).astype(bool)
    c2 = np.array(o.cell_geometry_is_defined_ref() if not o.geometry_defined_for_all_cells() else np.ones((nk, nj, ni), dtype = bool)).astype(bool)
    check(np.array_equal(c, c2), 'reads-differently', 'geometry defined of single cells and of all cells differ')
    p = np.array(o.pillar_geometry_is_defined_ref() if not o.geometry_defined_for_all_pillars() else np.ones((nj + 1, ni + 1), dtype = bool)).astype(bool)
    return dict(title = o.title, crs = str(o.crs_uuid), ext = tuple(o.extent_kji), pts = o.points_ref(masked = False), cells = c2, pillars = p)


@kind('pillar_grid', ('crs',))
def _(m, r, env):
    """An ijk grid, possibly faulted, with straight pillars, stored as parametric lines."""
    import resqpy.grid as grr
    import resqpy.rq_import as rqi
    cu = depth_crs(m, r, env)
    t = title(r, 'pgrid')
    nk, nj, ni = r.randint(1, 3), r.randint(1, 4), r.randint(2, 4)
    k, j, i = np.mgrid[0:nk + 1, 0:nj + 1, 0:ni + 1]
    base = np.stack((i * 100.0, j * 80.0, 1000.0 + k * 10.0), axis = -1)
    base[..., 0] += (base[..., 2] - 1000.0) * 0.3  # all pillars slope alike, so that throws keep points on them
    cp = np.empty((nk, nj, ni, 2, 2, 2, 3))
    for kp in range(2):
        for jp in range(2):
            for ip in range(2):
                cp[:, :, :, kp, jp, ip] = base[kp:nk + kp, jp:nj + jp, ip:ni + ip]
    if r.random() < 0.6:
        throw = round(r.uniform(1, 40), 1)
        fi = r.randint(1, ni - 1)
        cp[:, :, fi:, ..., 2] += throw
        cp[:, :, fi:, ..., 0] += throw * 0.3
    o = rqi.grid_from_cp(m, cp.copy(), cu, known_to_be_straight = True)
    o.title = t
    o.write_hdf5_from_caches(use_parametric_lines = True)
    o.create_xml(title = t, use_parametric_lines = True, use_lattice = False)
    return o.uuid, {'title': t, 'crs': str(cu), 'ext': (nk, nj, ni), 'cp~': cp}


@reader('pillar_grid')
def _(m, u, e):
    import resqpy.grid as grr
    o = grr.any_grid(m, uuid = u)
    return {'title': o.title, 'crs': str(o.crs_uuid), 'ext': tuple(o.extent_kji), 'cp~': o.corner_points()}


# ------------------------------------------------------------------ unstructured grids

UG = ('points_cached', 'nodes_per_face', 'nodes_per_face_cl', 'faces_per_cell', 'faces_per_cell_cl', 'cell_face_is_right_handed')


def _ug_state(o):
    d = {k: np.array(getattr(o, k)) for k in UG}
    return dict(d, title = o.title, crs = str(o.crs_uuid), n = int(o.cell_count), nn = int(o.node_count), nf = int(o.face_count), shape = o.cell_shape,
                inactive = None if o.inactive is None else np.array(o.inactive).astype(bool))


def _ug_finish(m, r, o, t, em):
    o.title = t
    act = r.random() < 0.4
    if act:
        o.inactive = nprng(r).rand(o.cell_count) < 0.4
        if not o.inactive.any():
            o.inactive[0] = True
        o.all_inactive = bool(o.inactive.all())
    e = _ug_state(o)
    o.write_hdf5()
    o.create_xml(title = t, extra_metadata = em)
    for k, v in _ug_state(o).items():
        check(np.array_equal(np.asarray(v, dtype = object if v is None else None), np.asarray(e[k], dtype = object if e[k] is None else None), equal_nan = np.asarray(v).dtype.kind == 'f'),
              'changed', f'{k} of an unstructured grid changes as it is written')
    return dict(e, extra = em)


def _ug_read(m, u, e, cls):
    import resqpy.grid as grr
    import resqpy.unstructured as rug
    o = getattr(rug, cls)(m, uuid = u)
    o.cache_all_geometry_arrays()
    o.extract_inactive_mask()
    x = grr.any_grid(m, uuid = u)
    check(type(x).__name__ in (cls, cls.replace('Vertical', '')), 'reads-differently', f'any_grid() gives a {type(x).__name__} for a {cls}')
    em = {k: v for k, v in (o.extra_metadata or {}).items() if k in e.get('extra', {})}
    d = _ug_state(o)
    if e['inactive'] is None and d['inactive'] is not None and not d['inactive'].any():
        d['inactive'] = None
    return dict(d, extra = em)


def _set(o, npf, fpc, pts, rh):
    o.set_cell_count(len(fpc))
    o.face_count = len(npf)
    o.node_count = len(pts)
    o.nodes_per_face_cl = np.cumsum([len(x) for x in npf])
    o.nodes_per_face = np.array([n for x in npf for n in x], dtype = int)
    o.faces_per_cell_cl = np.cumsum([len(x) for x in fpc])
    o.faces_per_cell = np.array([n for x in fpc for n in x], dtype = int)
    o.cell_face_is_right_handed = rh
    o.points_cached = pts


@kind('pyramid_grid', ('crs',))
def _(m, r, env):
    import resqpy.unstructured as rug
    cu = depth_crs(m, r, env)
    t, em = title(r, 'pyramid'), meta(r)
    o = rug.PyramidGrid(m, title = t)
    o.crs_uuid = cu
    # two pyramids which share the base
    npf = [(0, 1, 2, 3)] + [(i, (i + 1) % 4, 4) for i in range(4)] + [(i, (i + 1) % 4, 5) for i in range(4)]
    n = r.randint(1, 2)
    npf = npf[:5 if n == 1 else 9]
    fpc = [(0, 1, 2, 3, 4), (0, 5, 6, 7, 8)][:n]
    _set(o, npf, fpc, farr(r, (4 + n, 3)), np.array([r.random() < 0.5 for _ in range(5 * n)], dtype = bool))
    return o.uuid, _ug_finish(m, r, o, t, em)


@reader('pyramid_grid')
def _(m, u, e):
    return _ug_read(m, u, e, 'PyramidGrid')


@kind('hexa_grid', ('crs',))
def _(m, r, env):
    import resqpy.unstructured as rug
    cu = depth_crs(m, r, env)
    t, em = title(r, 'hexa'), meta(r)
    n = r.randint(1, 4)  # in a row
    o = rug.HexaGrid(m, title = t)
    o.crs_uuid = cu
    npf = [(4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3) for i in range(n + 1)]
    fpc = []
    for i in range(n):
        f = [i, i + 1]
        for k in range(4):
            f.append(len(npf))
            npf.append((4 * i + k, 4 * i + (k + 1) % 4, 4 * i + 4 + (k + 1) % 4, 4 * i + 4 + k))
        fpc.append(f)
    pts = np.array([(100.0 * i, 80.0 * a, 20.0 * b) for i in range(n + 1) for a, b in ((0, 0), (0, 1), (1, 1), (1, 0))])
    _set(o, npf, fpc, pts + farr(r, pts.shape, -1, 1), np.array([r.random() < 0.5 for _ in range(6 * n)], dtype = bool))
    return o.uuid, _ug_finish(m, r, o, t, em)


@reader('hexa_grid')
def _(m, u, e):
    return _ug_read(m, u, e, 'HexaGrid')


@kind('prism_grid', ('crs',))
def _(m, r, env):
    import resqpy.surface as rqs
    import resqpy.unstructured as rug
    cu = depth_crs(m, r, env)
    t, em = title(r, 'prism'), meta(r)
    n = r.randint(1, 4)
    pts = np.array([(50.0 * (i // 2), 40.0 * (i % 2), 0.0) for i in range(n + 2)])
    tris = np.array([(i, i + 1, i + 2) for i in range(n)])
    ss = []
    for k in range(r.randint(2, 3)):
        p = pts.copy()
        p[:, 2] = 100.0 * k + farr(r, len(p), 0, 30)
        s = rqs.Surface(m, crs_uuid = cu)
        s.set_from_triangles_and_points(tris, p)
        ss.append(s)
    o = rug.VerticalPrismGrid.from_surfaces(m, ss, title = t)
    em = dict(em)
    d = _ug_finish(m, r, o, t, em)
    return o.uuid, dict(d, nk = len(ss) - 1)


@reader('prism_grid')
def _(m, u, e):
    import resqpy.unstructured as rug
    return dict(_ug_read(m, u, e, 'VerticalPrismGrid'), nk = rug.VerticalPrismGrid(m, uuid = u).nk)


@kind('poly_grid', ('crs',))
def _(m, r, env):
    """A polyhedral grid: a prism beside a tetrahedron and a pyramid."""
    import resqpy.unstructured as rug
    cu = depth_crs(m, r, env)
    t, em = title(r, 'poly'), meta(r)
    o = rug.UnstructuredGrid(m, title = t, cell_shape = 'polyhedral')
    o.crs_uuid = cu
    npf = [(0, 1, 2), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5), (0, 1, 6), (1, 2, 6), (2, 0, 6), (0, 1, 7), (1, 4, 7), (4, 3, 7), (3, 0, 7)]
    fpc = [(0, 1, 2, 3, 4), (0, 5, 6, 7), (2, 8, 9, 10, 11)]
    r.shuffle(fpc)
    if r.random() < 0.3:
        npf, fpc = npf[:5], [(0, 1, 2, 3, 4)]
    pts = farr(r, (8, 3)) if len(fpc) > 1 else farr(r, (6, 3))
    _set(o, npf, fpc, pts, np.array([r.random() < 0.5 for _ in range(sum(len(x) for x in fpc))], dtype = bool))
    return o.uuid, _ug_finish(m, r, o, t, em)


@reader('poly_grid')
def _(m, u, e):
    return _ug_read(m, u, e, 'UnstructuredGrid')


# ------------------------------------------------------------------ connections between and within several grids

@kind('multi_gcs', ('regular_grid',))
def _(m, r, env):
    """A grid connection set of one or two grids and several features."""
    import resqpy.grid as grr
    from resqpy.fault import GridConnectionSet
    gus = [env.get(m, 'regular_grid', r)]
    if r.random() < 0.6:
        gus.append(env.make(m, 'regular_grid', r.randrange(1 << 30)))
    fis = [env.make(m, r.choice(['fault_interpretation', 'horizon_interpretation']), r.randrange(1 << 30)) for _ in range(r.randint(1, 3))]
    t, em = title(r, 'mgcs'), meta(r)
    o = GridConnectionSet(m, grid = grr.any_grid(m, uuid = U(gus[0])), title = t, extra_metadata = em)
    o.grid_list = [grr.any_grid(m, uuid = U(g)) for g in gus]
    n = r.randint(1, 8)
    size = [int(np.prod(env.expect(g)['ext'])) for g in gus]
    gi = nprng(r).randint(0, len(gus), (n, 2))
    ci = np.array([[r.randrange(size[g]) for g in row] for row in gi])
    fp = nprng(r).randint(0, 6, (n, 2))
    bare = nprng(r).rand(n) < 0.2  # no second cell
    ci[bare, 1] = fp[bare, 1] = -1
    gi[bare, 1] = gi[bare, 0]
    fi = nprng(r).randint(0, len(fis), n)
    o.count = n
    o.grid_index_pairs = gi.copy() if len(gus) > 1 else None
    o.cell_index_pairs = ci.copy()
    o.cell_index_pairs_null_value = -1
    o.face_index_pairs = fp.copy()
    o.face_index_pairs_null_value = -1
    o.feature_indices = fi.copy()
    o.feature_list = [(m.type_of_part(m.part(uuid = U(u))), U(u), m.title(uuid = U(u))) for u in fis]
    o.write_hdf5()
    o.create_xml(title = t, extra_metadata = em)
    return o.uuid, dict(title = t, extra = em, grids = gus, gi = gi if len(gus) > 1 else None, pairs = ci, faces = fp, fi = fi, feats = fis, n = n)


@reader('multi_gcs')
def _(m, u, e):
    from resqpy.fault import GridConnectionSet
    o = GridConnectionSet(m, uuid = u)
    o.cache_arrays()
    return dict(common(o), grids = [str(g.uuid) for g in o.grid_list], gi = o.grid_index_pairs if len(o.grid_list) > 1 else None, pairs = o.cell_index_pairs, faces = o.face_index_pairs, fi = o.feature_indices,
                feats = [str(f[1]) for f in o.feature_list], n = o.count)

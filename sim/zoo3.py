"""More of the zoo (see zoo.py): wells with units, surveys and interpretations; representations of interpretations."""

import numpy as np

from .core import check
from .zoo import U, common, depth_crs, farr, iarr, kind, meta, nprng, reader, title


def _wb_interp(m, r, env, p = 0.6):
    from resqpy.organize import WellboreInterpretation
    if r.random() >= p:
        return None
    return WellboreInterpretation(m, uuid = U(env.get(m, 'wellbore_interpretation', r)))


def _uu(o):
    return None if o is None else str(o.uuid)


# ------------------------------------------------------------------ wells

@kind('well_survey', ('md_datum', 'wellbore_interpretation'))
def _(m, r, env):
    """A survey in any of the units, for an interpretation."""
    from resqpy.well import DeviationSurvey, MdDatum
    d = MdDatum(m, uuid = U(env.get(m, 'md_datum', r)))
    n = r.randint(2, 9)
    t, em = title(r, 'survey'), meta(r)
    mds = np.cumsum(farr(r, n, 1, 300))
    deg = r.random() < 0.5
    f = 1.0 if deg else np.pi / 180
    az, inc = farr(r, n, 0, 360) * f, farr(r, n, 0, 90) * f
    uom = r.choice(['m', 'ft'])
    first = tuple(round(r.uniform(-100, 100), 2) for _ in range(3))
    rep = _wb_interp(m, r, env)
    o = DeviationSurvey(m, title = t, md_datum = d, md_uom = uom, angle_uom = 'dega' if deg else 'rad', measured_depths = mds.copy(), azimuths = az.copy(),
                        inclinations = inc.copy(), first_station = first, represented_interp = rep, extra_metadata = em)
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, mds = mds, az = az, inc = inc, first = first, final = False, n = n, datum = str(d.uuid), uom = uom, degrees = deg, interp = _uu(rep))


@reader('well_survey')
def _(m, u, e):
    from resqpy.well import DeviationSurvey
    o = DeviationSurvey(m, uuid = u)
    return dict(common(o), mds = o.measured_depths, az = o.azimuths, inc = o.inclinations, first = tuple(o.first_station), final = o.is_final, n = o.station_count,
                datum = str(o.md_datum.uuid), uom = o.md_uom, degrees = o.angles_in_degrees, interp = _uu(o.wellbore_interpretation))


def curved(mds, az, inc, first):
    """Minimum curvature, from the definition: half of each segment along each of the two directions, scaled by the ratio factor."""
    v = np.stack((np.sin(inc) * np.sin(az), np.sin(inc) * np.cos(az), np.cos(inc)), axis = -1)
    p = [np.array(first, dtype = float)]
    for i in range(1, len(mds)):
        th = np.arctan2(np.linalg.norm(np.cross(v[i - 1], v[i])), np.dot(v[i - 1], v[i]))
        rf = 1.0 if th < 1e-9 else 2.0 / th * np.tan(th / 2)
        p.append(p[-1] + (mds[i] - mds[i - 1]) / 2 * rf * (v[i - 1] + v[i]))
    return np.array(p)


@kind('survey_trajectory', ('deviation_survey',))
def _(m, r, env):
    """A trajectory computed from a survey, which it refers to."""
    from resqpy.well import DeviationSurvey, Trajectory
    kd = r.choice(['deviation_survey', 'well_survey'])
    su = env.get(m, kd, r)
    e = env.expect(su)
    if np.any(np.diff(e['mds']) <= 0):  # pragma: no cover
        su = env.make(m, kd, r.randrange(1 << 30))
        e = env.expect(su)
    s = DeviationSurvey(m, uuid = U(su))
    t, em = title(r, 'traj'), meta(r)
    rep = _wb_interp(m, r, env)
    dom = r.choice(['driller', 'logger'])
    tg = r.random() < 0.5
    o = Trajectory(m, deviation_survey = s, well_name = t, represented_interp = rep, md_domain = dom, set_tangent_vectors = tg, extra_metadata = em)
    o.write_hdf5()
    o.create_xml()
    deg = e.get('degrees', True)
    cps = curved(e['mds'], np.radians(e['az']) if deg else e['az'], np.radians(e['inc']) if deg else e['inc'], e['first'])
    return o.uuid, {'title': t, 'extra': em, 'mds': e['mds'], 'cps~': cps, 'tangents': None if not tg else np.array(o.tangent_vectors), 'datum': e['datum'], 'uom': e.get('uom', 'm'), 'domain': dom,
                    'interp': _uu(rep), 'survey': su, 'ends': (float(e['mds'][0]), float(e['mds'][-1]))}


@reader('survey_trajectory')
def _(m, u, e):
    from resqpy.well import Trajectory
    o = Trajectory(m, uuid = u)
    return dict({'cps~': o.control_points}, **common(o), mds = o.measured_depths, tangents = o.tangent_vectors, datum = str(o.md_datum.uuid), uom = o.md_uom, domain = o.md_domain,
                interp = _uu(o.wellbore_interpretation), survey = _uu(o.deviation_survey), ends = (o.start_md, o.finish_md))


@kind('feet_trajectory', ('md_datum',))
def _(m, r, env):
    """A trajectory in feet, perhaps in a crs other than that of its datum."""
    from resqpy.well import MdDatum, Trajectory
    d = MdDatum(m, uuid = U(env.get(m, 'md_datum', r)))
    cu = depth_crs(m, r, env) if r.random() < 0.5 else d.crs_uuid
    n = r.randint(2, 8)
    t, em = title(r, 'traj'), meta(r)
    mds, cps = np.cumsum(farr(r, n, 1, 300)), np.cumsum(farr(r, (n, 3), 0.5, 100), axis = 0)
    rep = _wb_interp(m, r, env)
    dom = r.choice(['driller', 'logger'])
    tg = r.random() < 0.6
    o = Trajectory(m, crs_uuid = cu, md_datum = d, mds = mds.copy(), control_points = cps.copy(), length_uom = 'ft', well_name = t, md_domain = dom, represented_interp = rep,
                   set_tangent_vectors = tg, extra_metadata = em)
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, mds = mds, cps = cps, tangents = None if not tg else np.array(o.tangent_vectors), crs = str(cu), datum = str(d.uuid), uom = 'ft', domain = dom,
                        interp = _uu(rep), ends = (float(mds[0]), float(mds[-1])))


@reader('feet_trajectory')
def _(m, u, e):
    from resqpy.well import Trajectory
    o = Trajectory(m, uuid = u)
    return dict(common(o), mds = o.measured_depths, cps = o.control_points, tangents = o.tangent_vectors, crs = str(o.crs_uuid), datum = str(o.md_datum.uuid), uom = o.md_uom,
                domain = o.md_domain, interp = _uu(o.wellbore_interpretation), ends = (o.start_md, o.finish_md))


@kind('interp_frame', ('trajectory', 'wellbore_interpretation'))
def _(m, r, env):
    """A frame for an interpretation."""
    from resqpy.well import Trajectory, WellboreFrame
    tr = Trajectory(m, uuid = U(env.get(m, r.choice(['trajectory', 'feet_trajectory']), r)))
    t, em = title(r, 'frame'), meta(r)
    mds = np.cumsum(farr(r, r.randint(2, 12), 1, 30))
    rep = _wb_interp(m, r, env, 1.0)
    o = WellboreFrame(m, trajectory = tr, mds = mds.copy(), represented_interp = rep, title = t, extra_metadata = em)
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, mds = mds, traj = str(tr.uuid), interp = _uu(rep))


@reader('interp_frame')
def _(m, u, e):
    from resqpy.well import WellboreFrame
    o = WellboreFrame(m, uuid = u)
    return dict(common(o), mds = o.node_mds, traj = str(o.trajectory.uuid), interp = _uu(o.wellbore_interpretation))


@kind('multi_blocked_well', ('regular_grid', 'trajectory', 'wellbore_interpretation'))
def _(m, r, env):
    """A blocked well through one or two grids, with unblocked intervals."""
    import resqpy.grid as grr
    from resqpy.well import BlockedWell, Trajectory
    gus = [env.get(m, 'regular_grid', r)]
    if r.random() < 0.6:
        gu = env.make(m, 'regular_grid', r.randrange(1 << 30)) if r.random() < 0.5 else env.get(m, r.choice(['regular_grid', 'faulted_grid']), r)
        if gu not in gus:
            gus.append(gu)
    grids = [grr.any_grid(m, uuid = U(g)) for g in gus]
    tr = Trajectory(m, uuid = U(env.get(m, 'trajectory', r)))
    t, em = title(r, 'bw'), meta(r)
    rep = _wb_interp(m, r, env, 0.7)
    n = r.randint(1, 8)
    gi = np.array([r.choice([-1] + list(range(len(gus)))) for _ in range(n)], dtype = int)
    gi[r.randrange(n)] = r.randrange(len(gus))
    cells = np.array([r.randrange(grids[g].cell_count()) for g in gi if g >= 0], dtype = int)
    faces = np.array([[(r.randrange(3), r.randrange(2)), (r.randrange(3), r.randrange(2))] for _ in cells], dtype = int)
    if r.random() < 0.5:
        faces[-1, 1] = -1  # ends within the last cell
    if r.random() < 0.3:
        faces[0, 0] = -1
    mds = np.cumsum(farr(r, n + 1, 1, 30))
    o = BlockedWell(m, well_name = t, represented_interp = rep, extra_metadata = em)
    o.trajectory = tr
    o.grid_list = grids
    o.node_count, o.cell_count = n + 1, len(cells)
    o.node_mds, o.cell_indices, o.grid_indices, o.face_pair_indices = mds.copy(), cells.copy(), gi.copy(), faces.copy()
    o.write_hdf5()
    o.create_xml(title = t)
    return o.uuid, dict(title = t, extra = em, mds = mds, cells = cells, gi = gi, faces = faces, grids = gus, traj = str(tr.uuid), interp = _uu(rep), count = len(cells), nodes = n + 1,
                        kji = np.array([_kji(c, grids[g].extent_kji) for c, g in zip(cells, gi[gi >= 0])]), well = t)


def _kji(c, ext):
    return c // (ext[1] * ext[2]), (c // ext[2]) % ext[1], c % ext[2]


@reader('multi_blocked_well')
def _(m, u, e):
    from resqpy.well import BlockedWell
    o = BlockedWell(m, uuid = u)
    kg = o.cell_indices_and_grid_list()
    check([str(g.uuid) for g in kg[1]] == [e['grids'][g] for g in e['gi'] if g >= 0], 'wrong-grid', f'cells of blocked well {e["title"]!r} are given the wrong grids')
    return dict(common(o), mds = o.node_mds, cells = o.cell_indices, gi = o.grid_indices, faces = np.array(o.face_pair_indices), grids = [str(g.uuid) for g in o.grid_list],
                traj = str(o.trajectory.uuid), interp = _uu(o.wellbore_interpretation), count = o.cell_count, nodes = o.node_count, kji = kg[0], well = o.well_name)


# ------------------------------------------------------------------ representations of interpretations

INTERPS = ('horizon_interpretation', 'fault_interpretation')


def _rep(m, r, env):
    u = env.get(m, r.choice(INTERPS), r)
    return u, m.root_for_uuid(U(u))


@kind('represented_surface', ('crs',) + INTERPS)
def _(m, r, env):
    from resqpy.surface import Surface
    cu = depth_crs(m, r, env)
    t, em, role = title(r, 'surf'), meta(r), r.choice(['map', 'pick'])
    iu, root = _rep(m, r, env)
    p = farr(r, (r.randint(3, 12), 3))
    tr = np.array([r.sample(range(len(p)), 3) for _ in range(r.randint(1, 10))], dtype = int)
    o = Surface(m, title = t, surface_role = role, crs_uuid = cu, extra_metadata = em)
    o.set_represented_interpretation_root(root)
    o.set_from_triangles_and_points(tr.copy(), p.copy())
    o.write_hdf5()
    o.create_xml(title = t)
    return o.uuid, dict(title = t, extra = em, crs = str(cu), role = role, tris = tr, pts = p, interp = iu)


@reader('represented_surface')
def _(m, u, e):
    from resqpy.surface import Surface
    o = Surface(m, uuid = u)
    a, b = o.triangles_and_points()
    return dict(common(o), crs = str(o.crs_uuid), role = o.surface_role, tris = a, pts = b, interp = str(o.represented_interpretation_uuid))


@kind('represented_points', ('crs',) + INTERPS)
def _(m, r, env):
    from resqpy.surface import PointSet
    cu = depth_crs(m, r, env)
    t, em = title(r, 'ps'), meta(r)
    iu, root = _rep(m, r, env)
    p = farr(r, (r.randint(1, 12), 3))
    o = PointSet(m, points_array = p.copy(), crs_uuid = cu, title = t, extra_metadata = em)
    o.set_represented_interpretation_root(root)
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, crs = str(cu), pts = p, interp = iu)


@reader('represented_points')
def _(m, u, e):
    from resqpy.surface import PointSet
    o = PointSet(m, uuid = u)
    return dict(common(o), crs = str(o.crs_uuid), pts = o.full_array_ref(), interp = o.represented_interpretation_root.attrib['uuid'])


@kind('represented_mesh', ('crs',) + INTERPS)
def _(m, r, env):
    from resqpy.surface import Mesh
    cu = depth_crs(m, r, env)
    t, em, role = title(r, 'mesh'), meta(r), r.choice(['map', 'pick'])
    iu, root = _rep(m, r, env)
    nj, ni = r.randint(2, 5), r.randint(2, 5)
    xyz = farr(r, (nj, ni, 3))
    o = Mesh(m, xyz_values = xyz.copy(), crs_uuid = cu, title = t, surface_role = role, extra_metadata = em)
    o.set_represented_interpretation_root(root)
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, crs = str(cu), role = role, xyz = xyz, shape = (nj, ni), interp = iu)


@reader('represented_mesh')
def _(m, u, e):
    from resqpy.surface import Mesh
    o = Mesh(m, uuid = u)
    return dict(common(o), crs = str(o.crs_uuid), role = o.surface_role, xyz = o.full_array_ref(), shape = (o.nj, o.ni), interp = o.represented_interpretation_root.attrib['uuid'])


@kind('represented_lines', ('crs',) + INTERPS)
def _(m, r, env):
    """A polyline, or a set of polylines, representing an interpretation."""
    from resqpy.lines import Polyline, PolylineSet
    cu = depth_crs(m, r, env)
    t, em = title(r, 'lines'), meta(r)
    iu, root = _rep(m, r, env)
    single = r.random() < 0.5
    arrs = [farr(r, (r.randint(2, 9), 3)) for _ in range(1 if single else r.randint(1, 3))]
    closed = [r.random() < 0.5 for _ in arrs]
    if single:
        o = Polyline(m, set_coord = arrs[0].copy(), set_crs = cu, is_closed = closed[0], title = t, rep_int_root = root, extra_metadata = em)
    else:
        o = PolylineSet(m, polylines = [Polyline(m, set_coord = a.copy(), set_crs = cu, is_closed = c, title = f'line {i}') for i, (a, c) in enumerate(zip(arrs, closed))], title = t,
                        extra_metadata = em)
        o.rep_int_root = root
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, crs = str(cu), coords = arrs, closed = closed, interp = iu, single = single)


@reader('represented_lines')
def _(m, u, e):
    from resqpy.lines import Polyline, PolylineSet
    if e['single']:
        o = Polyline(m, uuid = u)
        polys = [o]
    else:
        o = PolylineSet(m, uuid = u)
        polys = o.polys
    return dict(common(o), crs = str(o.crs_uuid), coords = [p.coordinates for p in polys], closed = [bool(p.isclosed) for p in polys], interp = o.rep_int_root.attrib['uuid'],
                single = e['single'])


@kind('placed_tri_mesh', ('crs',))
def _(m, r, env):
    """A tri mesh away from the origin, with z values in units of their own."""
    from resqpy.surface import TriMesh
    cu = depth_crs(m, r, env)
    t, em = title(r, 'trimesh'), meta(r)
    nj, ni = r.randint(2, 6), r.randint(2, 6)
    z = farr(r, (nj, ni))
    side = round(r.uniform(1, 50), 2)
    org = (round(r.uniform(-100, 100), 2), round(r.uniform(-100, 100), 2), 0.0)
    uom = r.choice([None, 'ms', 'ft'])
    role = r.choice(['map', 'pick'])
    o = TriMesh(m, t_side = side, nj = nj, ni = ni, origin = org, z_values = z.copy(), z_uom = uom, surface_role = role, crs_uuid = cu, title = t, extra_metadata = dict(em))
    o.write_hdf5()
    o.create_xml()
    jj, ii = np.mgrid[0:nj, 0:ni]
    xyz = np.stack((org[0] + side * (ii + 0.5 * (jj % 2)), org[1] + side * jj * np.sqrt(3) / 2, z), axis = -1)
    return o.uuid, {'title': t, 'crs': str(cu), 'xyz~': xyz, 't_side~': side, 'shape': (nj, ni), 'em': em, 'uom': uom, 'role': role, 'origin~': np.array(org)}


@reader('placed_tri_mesh')
def _(m, u, e):
    from resqpy.surface import TriMesh
    o = TriMesh(m, uuid = u)
    em = {k: v for k, v in o.extra_metadata.items() if k in e['em']}
    return {'title': o.title, 'crs': str(o.crs_uuid), 'xyz~': o.full_array_ref(), 't_side~': o.t_side, 'shape': (o.nj, o.ni), 'em': em, 'uom': o.z_uom, 'role': o.surface_role,
            'origin~': np.zeros(3) if o.origin is None else np.array(o.origin)}

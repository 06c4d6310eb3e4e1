"""Lazily loaded objects: for each kind, how to open one from a model and what may be asked of it, in any order.

An accessor is a function of (object, Random) giving plain data; the same seed gives the same question."""
import random

import numpy as np

from .zoo import U

OPEN = {}
ASK = {}


def opener(kind):
    def deco(f):
        OPEN[kind] = f
        ASK.setdefault(kind, {})
        return f
    return deco


def ask(*kinds):
    def deco(f):
        for k in kinds:
            ASK.setdefault(k, {})[f.__name__] = f
        return f
    return deco


def plain(v):
    """A copy of an answer that later questions cannot change."""
    if isinstance(v, np.ma.MaskedArray):
        return ('masked', np.ma.filled(v.astype(float), np.nan), np.ma.getmaskarray(v).copy())
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(plain(x) for x in v)
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return str(v)


FG = ('faulted_grid', 'pillar_grid', 'layered_grid', 'holed_grid', 'local_grid')
GR = FG + ('regular_grid',)
UG = ('tetra_grid', 'pyramid_grid', 'hexa_grid', 'prism_grid', 'poly_grid')


@opener('faulted_grid')
@opener('pillar_grid')
@opener('layered_grid')
@opener('holed_grid')
@opener('local_grid')
@opener('regular_grid')
def _(m, u):
    import resqpy.grid as grr
    return grr.any_grid(m, uuid = U(u))


@opener('mesh')
def _(m, u):
    from resqpy.surface import Mesh
    return Mesh(m, uuid = U(u))


@opener('tri_mesh')
def _(m, u):
    from resqpy.surface import TriMesh
    return TriMesh(m, uuid = U(u))


@opener('pointset')
def _(m, u):
    from resqpy.surface import PointSet
    return PointSet(m, uuid = U(u))


@opener('surface')
def _(m, u):
    from resqpy.surface import Surface
    return Surface(m, uuid = U(u))


@opener('polyline')
def _(m, u):
    from resqpy.lines import Polyline
    return Polyline(m, uuid = U(u))


@opener('polyline_set')
def _(m, u):
    from resqpy.lines import PolylineSet
    return PolylineSet(m, uuid = U(u))


def _ug(cls):
    def f(m, u):
        import resqpy.unstructured as rug
        return getattr(rug, cls)(m, uuid = U(u))
    return f


for _k, _c in (('tetra_grid', 'TetraGrid'), ('pyramid_grid', 'PyramidGrid'), ('hexa_grid', 'HexaGrid'), ('prism_grid', 'VerticalPrismGrid'), ('poly_grid', 'UnstructuredGrid')):
    opener(_k)(_ug(_c))


@opener('gcs')
@opener('multi_gcs')
def _(m, u):
    from resqpy.fault import GridConnectionSet
    return GridConnectionSet(m, uuid = U(u))


@opener('property')
def _(m, u):
    from resqpy.property import Property
    return Property(m, uuid = U(u))


@opener('trajectory')
def _(m, u):
    from resqpy.well import Trajectory
    return Trajectory(m, uuid = U(u))


@opener('deviation_survey')
def _(m, u):
    from resqpy.well import DeviationSurvey
    return DeviationSurvey(m, uuid = U(u))


@opener('wellbore_frame')
def _(m, u):
    from resqpy.well import WellboreFrame
    return WellboreFrame(m, uuid = U(u))


@opener('blocked_well')
def _(m, u):
    from resqpy.well import BlockedWell
    return BlockedWell(m, uuid = U(u))


@opener('dataframe')
def _(m, u):
    from resqpy.olio.dataframe import DataFrame
    return DataFrame(m, uuid = U(u))


# ---------------------------------------------------------------- grids

def any_cell(o, r):
    nk, nj, ni = o.extent_kji
    return (r.randrange(nk), r.randrange(nj), r.randrange(ni))


def cell(o, r):
    nk, nj, ni = o.extent_kji
    if 'holed' in o.title:  # a cell which has a geometry; what is said of others depends on what is cached, and resqpy says so
        return (r.randrange(nk), 1, 1)
    return (r.randrange(nk), r.randrange(nj), r.randrange(ni))


@ask(*GR)
def points(o, r):
    return o.points_ref(masked = False)


@ask(*GR)
def points_masked(o, r):
    return o.points_ref(masked = True)


@ask(*GR)
def corner_points(o, r):
    return o.corner_points(cache_cp_array = True)


@ask(*GR)
def corner_points_cell(o, r):
    return o.corner_points(cell_kji0 = cell(o, r), cache_cp_array = r.random() < 0.5, cache_resqml_array = r.random() < 0.5)


@ask(*GR)
def centre_point(o, r):
    return o.centre_point(cache_centre_array = r.random() < 0.5)


@ask(*GR)
def centre_point_cell(o, r):
    return o.centre_point(cell_kji0 = cell(o, r))


@ask(*GR)
def thickness(o, r):
    return o.thickness()


@ask(*GR)
def thickness_cell(o, r):
    return o.thickness(cell_kji0 = cell(o, r))


@ask(*GR)
def volume(o, r):
    return o.volume()


@ask(*GR)
def volume_cell(o, r):
    return o.volume(cell_kji0 = cell(o, r))


@ask(*GR)
def pinched_out(o, r):
    return o.pinched_out()


@ask(*GR)
def inactive(o, r):
    return o.extract_inactive_mask()


@ask(*FG)
def cell_inactive(o, r):
    return o.cell_inactive(cell(o, r))


@ask(*GR)
def xyz_box(o, r):
    return o.xyz_box(lazy = False, local = True)


@ask(*GR)
def bounding_box(o, r):
    return o.bounding_box(cell(o, r))


@ask(*FG)
def horizon(o, r):
    return o.horizon_points(ref_k0 = r.randrange(o.nk), heal_faults = r.random() < 0.5)


@ask(*FG)
def split_horizon(o, r):
    return o.split_horizon_points(ref_k0 = r.randrange(o.nk), kp = r.randrange(2))


@ask(*FG)
def split_horizons(o, r):
    return o.split_horizons_points()


@ask(*FG)
def x_section(o, r):
    return o.x_section_corner_points(r.choice('IJ'), ref_slice0 = 0)


@ask(*FG)
def unsplit(o, r):
    return o.unsplit_points_ref(cache_array = r.random() < 0.5)


@ask(*FG)
def split_faces(o, r):
    return o.split_column_faces()


@ask(*FG)
def pillar_mapping(o, r):
    return o.create_column_pillar_mapping()


@ask(*FG)
def coordinate_lines(o, r):
    return o.coordinate_line_end_points()


@ask(*FG)
def z_depths(o, r):
    return o.z_corner_point_depths(order = r.choice(['cellular', 'linear']))


@ask(*FG)
def cell_geometry(o, r):
    return o.cell_geometry_is_defined(any_cell(o, r))


@ask(*FG)
def all_geometry(o, r):
    return (o.geometry_defined_for_all_cells(), o.geometry_defined_for_all_pillars())


@ask(*FG)
def pillar_shape(o, r):
    return o.actual_pillar_shape()


@ask(*FG)
def fault_throw(o, r):
    return o.fault_throws_per_edge_per_column()


@ask(*FG)
def interface(o, r):
    return o.interface_vectors_kji(cell(o, r), cache_cp_array = r.random() < 0.5)


@ask(*FG)
def lengths(o, r):
    return o.interface_lengths_kji(cell(o, r))


@ask(*FG)
def find_cell(o, r):
    return o.find_cell_for_point_xy(r.uniform(10, 150), r.uniform(10, 70))


@ask(*FG)
def interpolated(o, r):
    return o.interpolated_point(cell(o, r), [r.random() for _ in range(3)])


@ask(*FG)
def point_one(o, r):
    return o.point(cell(o, r), corner_index = np.array([r.randrange(2) for _ in range(3)]))


@ask(*FG)
def connections(o, r):
    gcs, _ = o.fault_connection_set()
    return None if gcs is None else [gcs.cell_index_pairs, gcs.face_index_pairs]


@ask(*FG)
def cache_all(o, r):
    o.cache_all_geometry_arrays()
    return [o.points_cached, getattr(o, 'array_cell_geometry_is_defined', None) is not None]


@ask(*GR)
def grid_properties(o, r):
    pc = o.extract_property_collection()
    out = {}
    for p in sorted(pc.parts()) if pc is not None else []:
        out[pc.citation_title_for_part(p)] = pc.cached_part_array_ref(p) if not pc.points_for_part(p) and not pc.constant_value_for_part(p) else None
    return out


@ask(*GR)
def one_point(o, r):
    nk, nj, ni = o.extent_kji
    return o.point_raw(index = (r.randrange(nk + 1), r.randrange(nj + 1), r.randrange(ni + 1)), cache_array = r.random() < 0.5) if not o.has_split_coordinate_lines and not o.k_gaps else None


@ask('layered_grid', 'pillar_grid')
def raw_points(o, r):
    return o.point_raw()


@ask('layered_grid')
def strata(o, r):
    o.extract_stratigraphy()
    return [o.stratigraphic_column_rank_uuid, o.stratigraphic_units]


@ask('layered_grid')
def gaps(o, r):
    o.extract_k_gaps()
    return [o.k_gaps, o.k_gap_after_array, o.k_raw_index_array, o.nk_plus_k_gaps]


@ask('layered_grid')
def gap_section(o, r):
    return o.split_gap_x_section_points(r.choice('IJ'), ref_slice0 = 0)


@ask('holed_grid', 'layered_grid')
def cells_defined(o, r):
    return (o.cell_geometry_is_defined_ref(), o.cell_geometry_is_defined(any_cell(o, r)))


@ask('holed_grid', 'layered_grid')
def pillars_defined(o, r):
    return (o.pillar_geometry_is_defined_ref(), o.pillar_geometry_is_defined((r.randrange(o.nj + 1), r.randrange(o.ni + 1))))


@ask('local_grid')
def parentage(o, r):
    o.extract_parent()
    fc = o.parent_window
    return [o.parent_grid_uuid, o.is_refinement, fc.ratio(r.randrange(3), 0), fc.fine_box_for_coarse((0, 0, 0)), fc.coarse_for_fine_kji0(tuple(r.randrange(x) for x in fc.fine_extent_kji))]


@ask('regular_grid')
def axial(o, r):
    return o.axial_lengths_kji()


# ---------------------------------------------------------------- surfaces, points and lines

@ask('mesh', 'tri_mesh')
def full_array(o, r):
    return o.full_array_ref()


@ask('mesh', 'tri_mesh')
def mesh_surface(o, r):
    s = o.surface()
    return s.triangles_and_points()


@ask('tri_mesh')
def tm_triangles(o, r):
    return o.triangles_and_points()


@ask('tri_mesh')
def tm_z(o, r):
    return o.interpolated_z((0.1, 0.1))


@ask('tri_mesh')
def tm_edges(o, r):
    return o.edge_zero_crossings()


@ask('pointset')
def ps_full(o, r):
    return o.full_array_ref()


@ask('pointset')
def ps_patch(o, r):
    return o.single_patch_array_ref(r.randrange(o.patch_count))


@ask('pointset')
def ps_all(o, r):
    o.load_all_patches()
    return o.patch_array_list


@ask('surface')
def s_tp(o, r):
    return o.triangles_and_points(copy = r.random() < 0.5)


@ask('surface')
def s_patch(o, r):
    return o.triangles_and_points(patch = r.randrange(o.number_of_patches()))


@ask('surface')
def s_counts(o, r):
    return (o.triangle_count(), o.node_count(), o.number_of_patches())


@ask('surface')
def s_edges(o, r):
    return o.distinct_edges()


@ask('surface')
def s_lengths(o, r):
    return o.edge_lengths()


@ask('surface')
def s_decache(o, r):
    o.decache_triangles_and_points()
    return None


@ask('polyline')
def pl_coords(o, r):
    return (o.coordinates, o.full_length(), o.segment_length(0))


@ask('polyline_set')
def pls_coords(o, r):
    return [p.coordinates for p in o.polys]


@ask(*UG)
def ug_points(o, r):
    return o.points_ref()


@ask(*UG)
def ug_box(o, r):
    return o.xyz_box()


@ask(*UG)
def ug_cell(o, r):
    c = r.randrange(o.cell_count)
    return (o.face_indices_for_cell(c), sorted(o.distinct_node_indices_for_cell(c)), o.face_count_for_cell(c))


@ask(*UG)
def ug_centre(o, r):
    return o.centre_point(r.randrange(o.cell_count), cache_centre_array = r.random() < 0.3)


@ask(*UG)
def ug_handed(o, r):
    return o.face_indices_and_handedness_for_cell(r.randrange(o.cell_count))


@ask(*UG)
def ug_face_nodes(o, r):
    f = r.randrange(o.face_count)
    return (o.node_indices_for_face(f), o.node_count_for_face(f))


@ask(*UG)
def ug_face_centre(o, r):
    return o.face_centre_point(r.randrange(o.face_count))


@ask(*UG)
def ug_face_normal(o, r):
    return o.face_normal(r.randrange(o.face_count))


@ask(*UG)
def ug_face_planar(o, r):
    return o.planar_face_points(r.randrange(o.face_count), xy_plane = r.random() < 0.5)


@ask('tetra_grid', 'pyramid_grid', 'prism_grid', 'hexa_grid')
def ug_face_area(o, r):
    return o.area_of_face(r.randrange(o.face_count), in_plane = r.random() < 0.5)


@ask('tetra_grid', 'pyramid_grid', 'hexa_grid', 'prism_grid')
def ug_volume(o, r):
    return o.volume(r.randrange(o.cell_count))


@ask(*UG)
def ug_external(o, r):
    return o.external_face_indices()


@ask(*UG)
def ug_cells_per_face(o, r):
    return o.set_cells_per_face(check_all_faces_used = r.random() < 0.5)


@ask(*UG)
def ug_masked(o, r):
    mask = np.array([r.random() < 0.5 for _ in range(o.cell_count)])
    return (o.external_face_indices_for_masked_cells(mask), o.internal_face_indices_for_masked_cells(mask))


@ask(*UG)
def ug_most(o, r):
    return (o.max_face_count_for_any_cell(), o.max_node_count_for_any_face())


@ask(*UG)
def ug_cell_faces(o, r):
    return o.cell_face_centre_points(r.randrange(o.cell_count))


@ask(*UG)
def ug_centres(o, r):
    return o.centre_point()


@ask(*UG)
def ug_inactive(o, r):
    return o.extract_inactive_mask()


@ask(*UG)
def ug_indices(o, r):
    o.check_indices()
    return True


@ask(*UG)
def ug_all(o, r):
    o.cache_all_geometry_arrays()
    return [o.points_cached, o.nodes_per_face, o.nodes_per_face_cl, o.faces_per_cell, o.faces_per_cell_cl, o.cell_face_is_right_handed]


@ask('tetra_grid', 'pyramid_grid', 'hexa_grid', 'prism_grid')
def ug_check(o, r):
    getattr(o, 'check_' + dict(tetrahedral = 'tetra', pyramidal = 'pyramidal', hexahedral = 'hexahedral', prism = 'prism')[o.cell_shape])()
    return True


@ask('tetra_grid')
def tg_parts(o, r):
    return (o.faces_for_cell(r.randrange(o.cell_count)), o.nodes_for_face(r.randrange(o.face_count)))


@ask('tetra_grid')
def tg_hands(o, r):
    return o.determine_cell_face_right_handedness(r.randrange(o.cell_count))


@ask('hexa_grid')
def hg_corners(o, r):
    return o.corner_points(r.randrange(o.cell_count))


@ask('prism_grid')
def vg_corners(o, r):
    return o.corner_points(r.choice([None, r.randrange(o.cell_count)]))


@ask('prism_grid')
def vg_thickness(o, r):
    return o.thickness(r.choice([None, r.randrange(o.cell_count)]))


@ask('prism_grid')
def vg_top(o, r):
    return (o.top_faces(), o.triangulation())


# ---------------------------------------------------------------- connections

@ask('gcs', 'multi_gcs')
def gcs_arrays(o, r):
    o.cache_arrays()
    return [o.cell_index_pairs, o.face_index_pairs, o.feature_indices]


@ask('gcs', 'multi_gcs')
def gcs_feature(o, r):
    return o.indices_for_feature_index(0)


@ask('gcs', 'multi_gcs')
def gcs_pairs(o, r):
    return o.list_of_cell_face_pairs_for_feature_index(0)


@ask('gcs', 'multi_gcs')
def gcs_faces(o, r):
    return o.grid_face_arrays(None, lazy = r.random() < 0.5) if False else o.simplified_sets_of_kelp_for_feature_index(0)


@ask('gcs', 'multi_gcs')
def gcs_layers(o, r):
    g = o.filtered_by_layer_range(min_k0 = 0, max_k0 = 0)
    return None if g is None else [g.cell_index_pairs, g.face_index_pairs]


@ask('gcs', 'multi_gcs')
def gcs_edges(o, r):
    return o.get_column_edge_bool_array_for_feature(0)


# ---------------------------------------------------------------- properties and wells

@ask('property')
def p_array(o, r):
    return o.array_ref()


@ask('property')
def p_masked(o, r):
    return o.array_ref(masked = True)


@ask('property')
def p_meta(o, r):
    return (o.title, o.property_kind(), o.facet(), o.count(), o.is_continuous(), o.minimum_value(), o.maximum_value())


@ask('property')
def p_collection(o, r):
    return o.collection.cached_part_array_ref(o.part)


@ask('property')
def p_shape(o, r):
    return o.collection.shape_and_type_of_part(o.part)[0]


@ask('property')
def p_uncache(o, r):
    o.collection.uncache_part_array(o.part)
    return None


@ask('trajectory')
def t_arrays(o, r):
    return (o.measured_depths, o.control_points, o.tangent_vectors)


@ask('trajectory')
def t_xyz(o, r):
    md = o.measured_depths
    return o.xyz_for_md(md[0] + r.random() * (md[-1] - md[0]))


@ask('trajectory')
def t_incl(o, r):
    return o.inclinations() if o.tangent_vectors is not None else None


@ask('deviation_survey')
def d_arrays(o, r):
    return (o.measured_depths, o.azimuths, o.inclinations)


@ask('wellbore_frame')
def f_mds(o, r):
    return o.node_mds


@ask('wellbore_frame')
def f_logs(o, r):
    lc = o.extract_log_collection()
    return [(x.title, x.values()) for x in lc.iter_logs()]


@ask('blocked_well')
def b_cells(o, r):
    return (o.cell_indices_kji0(), o.node_mds, o.face_pair_indices)


@ask('blocked_well')
def b_entry(o, r):
    return [o.entry_and_exit_mds(i) for i in range(o.cell_count)]


@ask('blocked_well')
def b_box(o, r):
    return o.box()


@ask('blocked_well')
def b_df(o, r):
    df = o.dataframe(extra_columns_list = ['X', 'Y', 'DEPTH', 'LENGTH', 'ANGLA', 'ANGLV'])
    return (list(df.columns), df.values.astype(float))


@ask('blocked_well')
def b_marker(o, r):
    return (o.kji0_marker(active_only = False), o.xyz_marker(active_only = False))


@ask('dataframe')
def df_all(o, r):
    d = o.dataframe()
    return (list(d.columns), d.values)


# ---------------------------------------------------------------- the rarer wells and representations

for _a, _b in (('well_survey', 'deviation_survey'), ('survey_trajectory', 'trajectory'), ('feet_trajectory', 'trajectory'), ('interp_frame', 'wellbore_frame'),
               ('multi_blocked_well', 'blocked_well'), ('placed_tri_mesh', 'tri_mesh'), ('represented_surface', 'surface'), ('represented_points', 'pointset'),
               ('represented_mesh', 'mesh')):
    OPEN[_a] = OPEN[_b]
    ASK[_a] = dict(ASK[_b])


@opener('wellbore_marker_frame')
def _(m, u):
    from resqpy.well import WellboreMarkerFrame
    return WellboreMarkerFrame(m, uuid = U(u))


@ask('wellbore_marker_frame')
def k_frame(o, r):
    d = o.dataframe()
    return (list(d.columns), [[str(x) for x in row] for row in d.values])


@ask('wellbore_marker_frame')
def k_find(o, r):
    ks = [k.interpretation_uuid for k in o.marker_list if k.interpretation_uuid is not None]
    return [o.find_marker_index_from_interp(u) for u in ks]


@ask('wellbore_marker_frame')
def k_pick(o, r):
    k = o.find_marker_from_index(r.randrange(o.node_count + 1))
    return None if k is None else (k.title, k.marker_type)


@ask('trajectory', 'survey_trajectory', 'feet_trajectory')
def t_df(o, r):
    d = o.dataframe()
    return (list(d.columns), d.values)


@ask('trajectory', 'survey_trajectory', 'feet_trajectory')
def t_splined(o, r):
    t = o.splined_trajectory(well_name = 'splined', min_subdivisions = 2, store_tangents_if_calculated = False)
    return (t.measured_depths, t.control_points)


@ask('trajectory', 'survey_trajectory', 'feet_trajectory')
def t_shallow(o, r):
    return o.xyz_for_md(o.start_md * r.random())


@ask('trajectory')
def t_frames(o, r):
    return sorted(str(f.uuid) for f in o.iter_wellbore_frames())


@ask('wellbore_frame', 'interp_frame')
def f_interval(o, r):
    md = o.node_mds
    return o.interval_for_md(md[0] + (r.random() * 1.4 - 0.2) * (md[-1] - md[0]))


@ask('wellbore_frame', 'interp_frame')
def f_crs(o, r):
    return str(o.extract_crs_uuid())


@ask('blocked_well', 'multi_blocked_well')
def b_grids(o, r):
    k, g = o.cell_indices_and_grid_list()
    return (k, [str(x.uuid) for x in g], o.compressed_grid_indices(), o.map_cell_and_grid_indices())


@ask('blocked_well', 'multi_blocked_well')
def b_of_grid(o, r):
    u = r.choice(o.grid_uuid_list())
    return (o.cell_indices_for_grid_uuid(str(u)), o.box(grid_uuid = u))


@ask('blocked_well', 'multi_blocked_well')
def b_cell(o, r):
    md = o.node_mds
    return o.wb_cell_for_md(md[0] + (r.random() * 1.4 - 0.2) * (md[-1] - md[0]))


@ask('blocked_well', 'multi_blocked_well')
def b_interval(o, r):
    return o.interval_for_cell(r.randrange(o.cell_count))


@ask('blocked_well', 'multi_blocked_well')
def b_small_df(o, r):
    df = o.dataframe(extra_columns_list = ['GRID', 'RADW', 'SKIN'], stat = 'ON')
    return (list(df.columns), [[str(x) for x in row] for row in df.values])


@ask('tri_mesh', 'placed_tri_mesh')
def tm_find(o, r):
    a = o.full_array_ref()[..., :2].reshape(-1, 2)
    p = a.min(axis = 0) + np.array([r.random(), r.random()]) * (a.max(axis = 0) - a.min(axis = 0))
    return (o.tji_for_xy(p), o.tji_tc_for_xy(p), o.ji_and_weights_for_xy(p), o.interpolated_z(p))


@ask('tri_mesh', 'placed_tri_mesh')
def tm_many(o, r):
    a = o.full_array_ref()[..., :2].reshape(-1, 2)
    p = a.min(axis = 0) + np.random.RandomState(r.randrange(1 << 30)).uniform(size = (3, 2)) * (a.max(axis = 0) - a.min(axis = 0))
    return (o.tji_for_xy_array(p), o.interpolated_z_array(p))


@ask('tri_mesh', 'placed_tri_mesh')
def tm_nodes(o, r):
    return (o.all_tri_nodes(), o.tri_nodes_for_tji((0, 0)))


@ask('tri_mesh', 'placed_tri_mesh')
def tm_crossings(o, r):
    a = o.full_array_ref()[..., 2]
    return o.axial_edge_crossings(2, value = float(a.min() + r.random() * (a.max() - a.min())))


def question(o, kind, name, seed):
    return plain(ASK[kind][name](o, random.Random(seed)))

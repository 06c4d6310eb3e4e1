"""The object zoo: for each supported class of object, a seeded builder (which writes the object to a
model through the public API and returns what must be readable ever after) and a reader.

expected / observed values are plain dictionaries: numpy arrays compare exactly (NaN == NaN) unless the
key ends in '~', when they compare to 1e-6 relative."""

import random

import numpy as np

from .core import check

KINDS = {}
READ = {}
APART = {'grid_at_origin'}  # made only where asked for by name
DEPS = {}


def kind(name, deps = ()):
    def deco(f):
        KINDS[name] = f
        DEPS[name] = deps
        return f
    return deco


def reader(name):
    def deco(f):
        READ[name] = f
        return f
    return deco


class Altered(random.Random):
    """The generator of a given seed but with one draw altered: what is built from it differs in one respect."""

    def __init__(self, seed, at):
        self.n = -1
        random.Random.__init__(self, seed)
        self.at = at
        self.alt = random.Random(seed + 1)

    def getrandbits(self, k):
        self.n += 1
        v = random.Random.getrandbits(self, k)
        return self.alt.getrandbits(k) if self.n == self.at else v

    def random(self):
        self.n += 1
        v = random.Random.random(self)
        return self.alt.random() if self.n == self.at else v


class Env:
    """Objects present in one model: the reference model of the store."""

    def __init__(self):
        self.objs = []  # (kind, uuid str, expect)
        self.tick = 0
        self.aux = {}  # uuid of a part which came along with an object: uuids of such objects

    def of(self, k):
        return [o for o in self.objs if o[0] == k]

    def get(self, m, k, r):
        have = self.of(k)
        if have:
            return have[r.randrange(len(have))][1]
        return self.make(m, k, r.randrange(1 << 30))

    def make(self, m, k, seed):
        r = Altered(*seed) if isinstance(seed, (list, tuple)) else random.Random(seed)
        self.tick += 1
        before = set(str(u) for u in m.uuids())
        uuid, expect = KINDS[k](m, r, self)
        uuid = str(uuid)
        known = set(o[1] for o in self.objs)
        for u in sorted(set(str(u) for u in m.uuids()) - before - known - {uuid}):
            self.aux.setdefault(u, []).append(uuid)
        if self.aux:  # what came along with another object may be used by this one too (the column names of two data frames)
            for u in m.uuids(related_uuid = U(uuid)) or []:
                if uuid not in self.aux.get(str(u), [uuid]):
                    self.aux[str(u)].append(uuid)
        for o in self.objs:
            if o[1] == uuid:
                return uuid
        if uuid in before:  # an equivalent object, edited since it was made, has been used again: these do not count for equivalence
            drop = {'crs': ('title',), 'time_series': ('title', 'extra'), 'string_lookup': ('extra',)}.get(k, ())
            expect = {x: v for x, v in expect.items() if x not in drop}
        self.objs.append((k, uuid, expect))
        return uuid

    def expect(self, uuid):
        for k, u, e in self.objs:
            if u == uuid:
                return e
        return None


def nprng(r):
    return np.random.RandomState(r.randrange(1 << 31))


# what may come at the end of any text
SPICE = [' & co', ' <odd>', ' "q"', ' é', ' &lt;lit&gt;', ' &amp;', ' &#65;', ' ]]>', '  two  spaces.', ' 中文', " it's", ' 100%', ' tab\there', ' line\nbreak', ' {0} {b}', ' back\\slash', ' \U0001f600', ' #1;2,3',
         ' <!-- c -->', ' <?pi?>', ' cr\rhere', ' nb\u00a0sp', ' a/b', ' =', ' None']


def meta(r):
    if r.random() < 0.5:
        return {}
    return {f'key {i}' + (r.choice(SPICE) if r.random() < 0.1 else ''): r.choice(['alpha', 'b & <c>', '12.5', 'naïve', 'x' * 30, 'True', '-']) + str(r.randrange(100)) +
            (r.choice(SPICE) if r.random() < 0.25 else '') for i in range(r.randint(1, 3))}


def title(r, base):
    return f'{base} {r.randrange(10**6)}' + (r.choice(SPICE) if r.random() < 0.6 else '')


def farr(r, shape, lo = -1000.0, hi = 1000.0, nan = False, dtype = float):
    a = nprng(r).uniform(lo, hi, size = shape).astype(dtype)
    if nan and a.size > 2 and r.random() < 0.4:
        a.reshape(-1)[r.randrange(a.size)] = np.nan
    return a


def iarr(r, shape, lo = -50, hi = 1000, dtype = int):
    return nprng(r).randint(lo, hi, size = shape).astype(dtype)


def common(o):
    return dict(title = o.title, extra = dict(o.extra_metadata or {}))


# ------------------------------------------------------------------ crs

@kind('crs')
def _(m, r, env):
    from resqpy.crs import Crs
    kw = dict(x_offset = round(r.uniform(-1e5, 1e5), 3), y_offset = round(r.uniform(-1e5, 1e5), 3), z_offset = r.choice([0.0, 12.5]),
              rotation = r.choice([0.0, 0.5, 1.25]), rotation_units = r.choice(['rad', 'dega']), xy_units = r.choice(['m', 'ft']), z_units = r.choice(['m', 'ft']),
              z_inc_down = r.random() < 0.7, axis_order = r.choice(['easting northing', 'northing easting', 'westing southing']),
              epsg_code = r.choice([None, '27700']), time_units = r.choice([None, None, None, 's']))
    t, em = title(r, 'crs'), meta(r)
    c = Crs(m, title = t, extra_metadata = em, **kw)
    c.create_xml()
    return c.uuid, dict(kw, title = t, extra = em)


@reader('crs')
def _(m, u, e):
    from resqpy.crs import Crs
    c = Crs(m, uuid = u)
    d = {k: getattr(c, k.rstrip('~')) for k in e if k not in ('title', 'extra')}
    return dict(d, **common(c))


def depth_crs(m, r, env):
    import resqpy.olio.uuid as bu
    have = [o for o in env.of('crs') if not o[2]['time_units']]
    if have:
        return bu.uuid_from_string(have[r.randrange(len(have))][1])
    while True:
        u = env.make(m, 'crs', r.randrange(1 << 30))
        e = env.expect(u)
        if e is None or not e['time_units']:
            return bu.uuid_from_string(u)


def U(u):
    import resqpy.olio.uuid as bu
    return bu.uuid_from_string(u)


# ------------------------------------------------------------------ features

def _feature(cls_name, kinds = None, name_attr = 'feature_name', valid = None):
    def build(m, r, env):
        import resqpy.organize as rqo
        cls = getattr(rqo, cls_name)
        t, em = title(r, cls_name), meta(r)
        kw = {}
        if valid:
            kw['kind'] = r.choice(valid)
        o = cls(m, feature_name = t, extra_metadata = em, **kw)
        o.create_xml()
        e = dict(title = t, extra = em)
        if valid:
            e['kind'] = kw['kind']
        return o.uuid, e

    def read(m, u, e):
        import resqpy.organize as rqo
        o = getattr(rqo, cls_name)(m, uuid = u)
        d = common(o)
        if valid:
            d['kind'] = o.kind
        return d
    return build, read


for _n, _c, _v in (('boundary_feature', 'BoundaryFeature', None), ('frontier_feature', 'FrontierFeature', None), ('geobody_feature', 'GeobodyFeature', None),
                   ('geologic_unit_feature', 'GeologicUnitFeature', None), ('wellbore_feature', 'WellboreFeature', None),
                   ('tectonic_boundary_feature', 'TectonicBoundaryFeature', ['fault', 'fracture']),
                   ('genetic_boundary_feature', 'GeneticBoundaryFeature', ['horizon', 'geobody boundary']),
                   ('fluid_boundary_feature', 'FluidBoundaryFeature', ['gas oil contact', 'water oil contact', 'free water contact', 'gas water contact', 'seal'])):
    _b, _r = _feature(_c, valid = _v)
    KINDS[_n], READ[_n], DEPS[_n] = _b, _r, ()


@kind('organization_feature')
def _(m, r, env):
    import resqpy.organize as rqo
    t, em, k = title(r, 'orgf'), meta(r), r.choice(['earth model', 'fluid', 'stratigraphic', 'structural'])
    o = rqo.OrganizationFeature(m, feature_name = t, organization_kind = k, extra_metadata = em)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, kind = k)


@reader('organization_feature')
def _(m, u, e):
    import resqpy.organize as rqo
    o = rqo.OrganizationFeature(m, uuid = u)
    return dict(common(o), kind = o.organization_kind)


@kind('rock_fluid_unit_feature', ('boundary_feature',))
def _(m, r, env):
    import resqpy.organize as rqo
    a = rqo.BoundaryFeature(m, uuid = U(env.get(m, 'boundary_feature', r)))
    b = rqo.BoundaryFeature(m, uuid = U(env.make(m, 'boundary_feature', r.randrange(1 << 30))))
    t, em, ph = title(r, 'rfu'), meta(r), r.choice(['aquifer', 'gas cap', 'oil column', 'seal'])
    o = rqo.RockFluidUnitFeature(m, phase = ph, feature_name = t, top_boundary_feature = a, base_boundary_feature = b, extra_metadata = em)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, phase = ph, top = str(a.uuid), base = str(b.uuid))


@reader('rock_fluid_unit_feature')
def _(m, u, e):
    import resqpy.organize as rqo
    o = rqo.RockFluidUnitFeature(m, uuid = u)
    return dict(common(o), phase = o.phase, top = str(o.top_boundary_feature.uuid), base = str(o.base_boundary_feature.uuid))


# ------------------------------------------------------------------ interpretations

@kind('fault_interpretation', ('tectonic_boundary_feature',))
def _(m, r, env):
    import resqpy.organize as rqo
    tbf = rqo.TectonicBoundaryFeature(m, uuid = U(env.get(m, 'tectonic_boundary_feature', r)))
    normal = r.random() < 0.5
    kw = dict(domain = r.choice(['depth', 'time', 'mixed']), is_normal = normal, is_listric = None if normal else r.random() < 0.5,
              maximum_throw = r.choice([None, 12.5]), mean_azimuth = r.choice([None, 30.25]), mean_dip = r.choice([None, 65.5]))
    t, em = title(r, 'fint'), meta(r)
    o = rqo.FaultInterpretation(m, title = t, tectonic_boundary_feature = tbf, extra_metadata = em, **kw)
    o.create_xml()
    return o.uuid, dict(kw, title = t, extra = em, feature = str(tbf.uuid))


@reader('fault_interpretation')
def _(m, u, e):
    import resqpy.organize as rqo
    o = rqo.FaultInterpretation(m, uuid = u)
    d = {k: getattr(o, k) for k in ('domain', 'is_normal', 'is_listric', 'maximum_throw', 'mean_azimuth', 'mean_dip')}
    return dict(d, feature = str(o.tectonic_boundary_feature.uuid), **common(o))


def _br(r):
    return r.choice([None, ['conformable'], ['unconformable below', 'unconformable above']])


@kind('horizon_interpretation', ('genetic_boundary_feature',))
def _(m, r, env):
    import resqpy.organize as rqo
    have = [o for o in env.of('genetic_boundary_feature') if o[2]['kind'] == 'horizon']
    if have:
        f = rqo.GeneticBoundaryFeature(m, uuid = U(have[r.randrange(len(have))][1]))
    else:
        ft = title(r, 'hz')
        f = rqo.GeneticBoundaryFeature(m, kind = 'horizon', feature_name = ft)
        f.create_xml()
        env.objs.append(('genetic_boundary_feature', str(f.uuid), dict(title = ft, extra = {}, kind = 'horizon')))
    kw = dict(domain = r.choice(['depth', 'time', 'mixed']), boundary_relation_list = _br(r), sequence_stratigraphy_surface = r.choice([None, 'flooding', 'maximum flooding']))
    t, em = title(r, 'hint'), meta(r)
    o = rqo.HorizonInterpretation(m, title = t, genetic_boundary_feature = f, extra_metadata = em, **kw)
    o.create_xml()
    return o.uuid, dict(kw, title = t, extra = em, feature = str(f.uuid))


@reader('horizon_interpretation')
def _(m, u, e):
    import resqpy.organize as rqo
    o = rqo.HorizonInterpretation(m, uuid = u)
    return dict(common(o), domain = o.domain, boundary_relation_list = o.boundary_relation_list,
                sequence_stratigraphy_surface = o.sequence_stratigraphy_surface, feature = str(o.genetic_boundary_feature.uuid))


@kind('geobody_boundary_interpretation', ('genetic_boundary_feature',))
def _(m, r, env):
    import resqpy.organize as rqo
    have = [o for o in env.of('genetic_boundary_feature') if o[2]['kind'] == 'geobody boundary']
    if have:
        f = rqo.GeneticBoundaryFeature(m, uuid = U(have[r.randrange(len(have))][1]))
    else:
        ft = title(r, 'gb')
        f = rqo.GeneticBoundaryFeature(m, kind = 'geobody boundary', feature_name = ft)
        f.create_xml()
        env.objs.append(('genetic_boundary_feature', str(f.uuid), dict(title = ft, extra = {}, kind = 'geobody boundary')))
    kw = dict(domain = r.choice(['depth', 'time', 'mixed']), boundary_relation_list = _br(r))
    t, em = title(r, 'gbint'), meta(r)
    o = rqo.GeobodyBoundaryInterpretation(m, title = t, genetic_boundary_feature = f, extra_metadata = em, **kw)
    o.create_xml()
    return o.uuid, dict(kw, title = t, extra = em, feature = str(f.uuid))


@reader('geobody_boundary_interpretation')
def _(m, u, e):
    import resqpy.organize as rqo
    o = rqo.GeobodyBoundaryInterpretation(m, uuid = u)
    return dict(common(o), domain = o.domain, boundary_relation_list = o.boundary_relation_list, feature = str(o.genetic_boundary_feature.uuid))


@kind('geobody_interpretation', ('geobody_feature',))
def _(m, r, env):
    import resqpy.organize as rqo
    f = rqo.GeobodyFeature(m, uuid = U(env.get(m, 'geobody_feature', r)))
    kw = dict(domain = r.choice(['depth', 'time', 'mixed']), composition = r.choice([None, 'intrusive clay', 'organic', 'carbonate']), material_implacement = r.choice([None, 'autochtonous', 'allochtonous']),
              geobody_shape = r.choice([None, 'dyke', 'sheet', 'dome']))
    t, em = title(r, 'geoint'), meta(r)
    o = rqo.GeobodyInterpretation(m, title = t, geobody_feature = f, extra_metadata = em, **kw)
    o.create_xml()
    return o.uuid, dict(kw, title = t, extra = em, feature = str(f.uuid))


@reader('geobody_interpretation')
def _(m, u, e):
    import resqpy.organize as rqo
    o = rqo.GeobodyInterpretation(m, uuid = u)
    return dict(common(o), domain = o.domain, composition = o.composition, material_implacement = o.implacement, geobody_shape = o.geobody_shape,
                feature = str(o.geobody_feature.uuid))


@kind('boundary_feature_interpretation', ('boundary_feature',))
def _(m, r, env):
    import resqpy.organize as rqo
    f = rqo.BoundaryFeature(m, uuid = U(env.get(m, 'boundary_feature', r)))
    dom = r.choice(['depth', 'time', 'mixed'])
    t, em = title(r, 'bfint'), meta(r)
    o = rqo.BoundaryFeatureInterpretation(m, title = t, boundary_feature = f, domain = dom, extra_metadata = em)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, domain = dom, feature = str(f.uuid))


@reader('boundary_feature_interpretation')
def _(m, u, e):
    import resqpy.organize as rqo
    o = rqo.BoundaryFeatureInterpretation(m, uuid = u)
    return dict(common(o), domain = o.domain, feature = str(o.boundary_feature.uuid))


@kind('wellbore_interpretation', ('wellbore_feature',))
def _(m, r, env):
    import resqpy.organize as rqo
    f = rqo.WellboreFeature(m, uuid = U(env.get(m, 'wellbore_feature', r)))
    dom, dr = r.choice(['depth', 'time', 'mixed']), r.choice([True, False])
    t, em = title(r, 'wint'), meta(r)
    o = rqo.WellboreInterpretation(m, title = t, wellbore_feature = f, domain = dom, is_drilled = dr, extra_metadata = em)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, domain = dom, is_drilled = dr, feature = str(f.uuid))


@reader('wellbore_interpretation')
def _(m, u, e):
    import resqpy.organize as rqo
    o = rqo.WellboreInterpretation(m, uuid = u)
    return dict(common(o), domain = o.domain, is_drilled = o.is_drilled, feature = str(o.wellbore_feature.uuid))


@kind('earth_model_interpretation', ('organization_feature',))
def _(m, r, env):
    import resqpy.organize as rqo
    f = rqo.OrganizationFeature(m, uuid = U(env.get(m, 'organization_feature', r)))
    dom = r.choice(['depth', 'time', 'mixed'])
    t, em = title(r, 'emint'), meta(r)
    o = rqo.EarthModelInterpretation(m, title = t, organization_feature = f, domain = dom, extra_metadata = em)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, domain = dom, feature = str(f.uuid))


@reader('earth_model_interpretation')
def _(m, u, e):
    import resqpy.organize as rqo
    o = rqo.EarthModelInterpretation(m, uuid = u)
    return dict(common(o), domain = o.domain, feature = str(o.organization_feature.uuid))


# ------------------------------------------------------------------ tables, kinds, time

@kind('string_lookup')
def _(m, r, env):
    from resqpy.property import StringLookup
    turn = r.random() < 0.3
    keys = r.sample(range(0, 12), r.randint(1, 5)) if r.random() < 0.6 else r.sample(range(-3, 500), r.randint(1, 5))
    d = {k: r.choice(['sand', 'silt & mud', 'a<b', 'facies']) + str(r.randrange(1000)) + (r.choice(SPICE) if r.random() < 0.3 else '') for k in keys}
    if turn:  # the same strings numbered differently
        d = dict(zip(d, list(d.values())[1:] + list(d.values())[:1]))
    t, em = title(r, 'lookup'), meta(r)
    o = StringLookup(m, int_to_str_dict = d, title = t, extra_metadata = em)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, table = d)


@reader('string_lookup')
def _(m, u, e):
    from resqpy.property import StringLookup
    o = StringLookup(m, uuid = u)
    check(all(o.get_string(k) == v for k, v in o.as_dict().items()), 'reads-differently', 'get_string() and as_dict() of a lookup table differ')
    return dict(common(o), table = dict(o.as_dict()))


@kind('property_kind')
def _(m, r, env):
    from resqpy.property import PropertyKind
    kw = dict(is_abstract = r.random() < 0.3, example_uom = r.choice(['Euc', 'm', 'psi']), naming_system = r.choice(['urn:resqml:bp.com:resqpy', 'urn:x:y']),
              parent_property_kind = r.choice(['continuous', 'discrete', 'length']))
    t, em = title(r, 'pk'), meta(r)
    o = PropertyKind(m, title = t, extra_metadata = em, **kw)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, is_abstract = kw['is_abstract'], example_uom = kw['example_uom'], naming_system = kw['naming_system'],
                        parent_kind = kw['parent_property_kind'])


@reader('property_kind')
def _(m, u, e):
    from resqpy.property import PropertyKind
    o = PropertyKind(m, uuid = u)
    return dict(common(o), is_abstract = o.is_abstract, example_uom = o.example_uom, naming_system = o.naming_system, parent_kind = o.parent_kind)


@kind('time_series')
def _(m, r, env):
    from resqpy.time_series import TimeSeries
    y = r.randrange(1980, 2030)
    t, em = title(r, 'ts'), meta(r)
    stamps = [f'{y:04d}-{r.randrange(1, 13):02d}-{r.randrange(1, 28):02d}T00:00:00Z']
    o = TimeSeries(m, first_timestamp = stamps[0], title = t, extra_metadata = em)
    for i in range(r.randint(0, 4)):
        y += r.randint(1, 3)
        s = f'{y:04d}-{r.randrange(1, 13):02d}-{r.randrange(1, 28):02d}T{r.randrange(24):02d}:00:00Z'
        o.add_timestamp(s)
        stamps.append(s)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, stamps = stamps)


@reader('time_series')
def _(m, u, e):
    from resqpy.time_series import TimeSeries
    o = TimeSeries(m, uuid = u)
    em = {k: v for k, v in o.extra_metadata.items() if k in e.get('extra', {})}
    return dict(title = o.title, extra = em, stamps = [o.timestamp(i) for i in range(o.number_of_timestamps())])


@kind('geologic_time_series')
def _(m, r, env):
    from resqpy.time_series import GeologicTimeSeries
    years = sorted(r.sample(range(1, 10**6), r.randint(1, 5)), reverse = True)
    years = [-y * 1000 for y in years]
    t, em = title(r, 'gts'), meta(r)
    o = GeologicTimeSeries.from_year_list(m, years, title = t, extra_metadata = em)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, years = years)


@reader('geologic_time_series')
def _(m, u, e):
    from resqpy.time_series import GeologicTimeSeries
    o = GeologicTimeSeries(m, uuid = u)
    em = {k: v for k, v in o.extra_metadata.items() if k in e.get('extra', {})}
    return dict(title = o.title, extra = em, years = [o.timestamp(i, as_string = False) for i in range(o.number_of_timestamps())])


# ------------------------------------------------------------------ point sets, lines, surfaces

@kind('pointset', ('crs',))
def _(m, r, env):
    from resqpy.surface import PointSet
    cu = depth_crs(m, r, env)
    t, em = title(r, 'ps'), meta(r)
    patches = [farr(r, (r.randint(1, 30), 3)) for _ in range(r.randint(1, 3))]
    o = PointSet(m, points_array = patches[0].copy(), crs_uuid = cu, title = t, extra_metadata = em)
    for p in patches[1:]:
        o.add_patch(p.copy())
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, crs = str(cu), patches = patches)


@reader('pointset')
def _(m, u, e):
    from resqpy.surface import PointSet
    o = PointSet(m, uuid = u)
    o.load_all_patches()
    return dict(common(o), crs = str(o.crs_uuid), patches = [o.single_patch_array_ref(i) for i in range(o.patch_count)])


@kind('polyline', ('crs',))
def _(m, r, env):
    from resqpy.lines import Polyline
    cu = depth_crs(m, r, env)
    t, em = title(r, 'pl'), meta(r)
    a = farr(r, (r.randint(2, 20), 3))
    closed = r.random() < 0.5
    o = Polyline(m, set_coord = a.copy(), set_crs = cu, is_closed = closed, title = t, extra_metadata = em)
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, crs = str(cu), coords = a, closed = closed)


@reader('polyline')
def _(m, u, e):
    from resqpy.lines import Polyline
    o = Polyline(m, uuid = u)
    return dict(common(o), crs = str(o.crs_uuid), coords = o.coordinates, closed = o.isclosed)


@kind('polyline_set', ('crs',))
def _(m, r, env):
    from resqpy.lines import Polyline, PolylineSet
    cu = depth_crs(m, r, env)
    t, em = title(r, 'pls'), meta(r)
    mixed = r.random() < 0.5
    c0 = r.random() < 0.5
    arrs = [farr(r, (r.randint(2, 9), 3)) for _ in range(r.randint(1, 4))]
    closed = [(r.random() < 0.5 if mixed else c0) for _ in arrs]
    lines = [Polyline(m, set_coord = a.copy(), set_crs = cu, is_closed = c, title = f'line {i}') for i, (a, c) in enumerate(zip(arrs, closed))]
    o = PolylineSet(m, polylines = lines, title = t, extra_metadata = em)
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, crs = str(cu), coords = arrs, closed = closed)


@reader('polyline_set')
def _(m, u, e):
    from resqpy.lines import PolylineSet
    o = PolylineSet(m, uuid = u)
    return dict(common(o), crs = str(o.crs_uuid), coords = [p.coordinates for p in o.polys], closed = [bool(p.isclosed) for p in o.polys])


@kind('surface', ('crs',))
def _(m, r, env):
    from resqpy.surface import Surface
    cu = depth_crs(m, r, env)
    t, em, role = title(r, 'surf'), meta(r), r.choice(['map', 'pick'])
    tps = []
    for _ in range(r.randint(1, 3)):
        n = r.randint(3, 20)
        p = farr(r, (n, 3))
        tr = np.array([r.sample(range(n), 3) for _ in range(r.randint(1, 25))], dtype = int)
        tps.append((tr, p))
    o = Surface(m, title = t, surface_role = role, crs_uuid = cu, extra_metadata = em)
    if len(tps) == 1:
        o.set_from_triangles_and_points(tps[0][0].copy(), tps[0][1].copy())
    else:
        o.set_multi_patch_from_triangles_and_points([(a.copy(), b.copy()) for a, b in tps])
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, crs = str(cu), role = role, tris = [a for a, _ in tps], pts = [b for _, b in tps])


@reader('surface')
def _(m, u, e):
    from resqpy.surface import Surface
    o = Surface(m, uuid = u)
    tt, pp = [], []
    for i in range(o.number_of_patches()):
        a, b = o.triangles_and_points(patch = i)
        tt.append(a)
        pp.append(b)
    return dict(common(o), crs = str(o.crs_uuid), role = o.surface_role, tris = tt, pts = pp)


@kind('mesh', ('crs',))
def _(m, r, env):
    from resqpy.surface import Mesh
    cu = depth_crs(m, r, env)
    t, em = title(r, 'mesh'), meta(r)
    nj, ni = r.randint(2, 6), r.randint(2, 6)
    flavour = r.choice(['explicit', 'regular', 'reg&z', 'ref&z'])
    kw = {}
    if flavour == 'explicit':
        xyz = farr(r, (nj, ni, 3))
        o = Mesh(m, xyz_values = xyz.copy(), crs_uuid = cu, title = t, extra_metadata = em)
        full = xyz
    else:
        org = tuple(round(r.uniform(-100, 100), 2) for _ in range(3))
        dxyz = np.array([[r.uniform(-1, 1), r.uniform(1, 30), 0.0], [r.uniform(1, 30), r.uniform(-1, 1), 0.0]])
        jj, ii = np.mgrid[0:nj, 0:ni]
        full = np.array(org)[None, None, :] + jj[..., None] * dxyz[0] + ii[..., None] * dxyz[1]
        if flavour == 'regular':
            o = Mesh(m, mesh_flavour = 'regular', nj = nj, ni = ni, origin = org, dxyz_dij = dxyz[::-1].copy(), crs_uuid = cu, title = t, extra_metadata = em)
            full = np.array(org)[None, None, :] + ii[..., None] * dxyz[::-1][0] + jj[..., None] * dxyz[::-1][1]
        elif flavour == 'reg&z':
            z = farr(r, (nj, ni))
            o = Mesh(m, z_values = z.copy(), nj = nj, ni = ni, origin = org, dxyz_dij = dxyz[::-1].copy(), crs_uuid = cu, title = t, extra_metadata = em)
            full = np.array(org)[None, None, :] + ii[..., None] * dxyz[::-1][0] + jj[..., None] * dxyz[::-1][1]
            full[..., 2] = z
        else:
            xyz = farr(r, (nj, ni, 3))
            st = title(r, 'support mesh')
            s = Mesh(m, xyz_values = xyz.copy(), crs_uuid = cu, title = st)
            s.write_hdf5()
            s.create_xml()
            env.objs.append(('mesh', str(s.uuid), dict({'title': st, 'extra': {}, 'crs': str(cu), 'flavour': 'explicit', 'xyz~': xyz.copy()})))
            z = farr(r, (nj, ni))
            o = Mesh(m, z_values = z.copy(), nj = nj, ni = ni, z_supporting_mesh_uuid = s.uuid, crs_uuid = cu, title = t, extra_metadata = em)
            full = xyz.copy()
            full[..., 2] = z
    if flavour != 'regular':
        o.write_hdf5()
    o.create_xml()
    return o.uuid, {'title': t, 'extra': em, 'crs': str(cu), 'flavour': flavour, 'xyz~': full}


@reader('mesh')
def _(m, u, e):
    from resqpy.surface import Mesh
    o = Mesh(m, uuid = u)
    return dict({'crs': str(o.crs_uuid), 'flavour': o.flavour, 'xyz~': o.full_array_ref()}, **common(o))


@kind('tri_mesh', ('crs',))
def _(m, r, env):
    from resqpy.surface import TriMesh
    cu = depth_crs(m, r, env)
    t, em = title(r, 'trimesh'), meta(r)
    nj, ni = r.randint(2, 6), r.randint(2, 6)
    z = farr(r, (nj, ni))
    side = round(r.uniform(1, 50), 2)
    o = TriMesh(m, t_side = side, nj = nj, ni = ni, z_values = z.copy(), crs_uuid = cu, title = t, extra_metadata = em)
    o.write_hdf5()
    o.create_xml()
    return o.uuid, {'title': t, 'crs': str(cu), 'z': z, 't_side~': side, 'nj': nj, 'ni': ni, 'em': em}


@reader('tri_mesh')
def _(m, u, e):
    from resqpy.surface import TriMesh
    o = TriMesh(m, uuid = u)
    em = {k: v for k, v in o.extra_metadata.items() if k in e['em']}
    return {'title': o.title, 'crs': str(o.crs_uuid), 'z': o.full_array_ref()[..., 2], 't_side~': o.t_side, 'nj': o.nj, 'ni': o.ni, 'em': em}


# ------------------------------------------------------------------ wells

@kind('md_datum', ('crs',))
def _(m, r, env):
    from resqpy.well import MdDatum
    cu = depth_crs(m, r, env)
    t, em = title(r, 'datum'), meta(r)
    loc = tuple(round(r.uniform(-1000, 1000), 3) for _ in range(3))
    ref = r.choice(['kelly bushing', 'mean sea level', 'ground level'])
    o = MdDatum(m, crs_uuid = cu, location = loc, md_reference = ref, title = t, extra_metadata = em)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, crs = str(cu), loc = loc, ref = ref)


@reader('md_datum')
def _(m, u, e):
    from resqpy.well import MdDatum
    o = MdDatum(m, uuid = u)
    return dict(common(o), crs = str(o.crs_uuid), loc = tuple(o.location), ref = o.md_reference)


@kind('deviation_survey', ('md_datum',))
def _(m, r, env):
    from resqpy.well import DeviationSurvey, MdDatum
    d = MdDatum(m, uuid = U(env.get(m, 'md_datum', r)))
    n = r.randint(2, 12)
    t, em = title(r, 'survey'), meta(r)
    mds = np.sort(farr(r, n, 0, 3000))
    az = farr(r, n, 0, 360)
    inc = farr(r, n, 0, 90)
    first = tuple(round(r.uniform(-100, 100), 2) for _ in range(3))
    fin = r.random() < 0.5
    o = DeviationSurvey(m, title = t, md_datum = d, md_uom = r.choice(['m']), angle_uom = 'dega', measured_depths = mds.copy(), azimuths = az.copy(),
                        inclinations = inc.copy(), station_count = n, first_station = first, is_final = fin, extra_metadata = em)
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, mds = mds, az = az, inc = inc, first = first, final = fin, n = n, datum = str(d.uuid))


@reader('deviation_survey')
def _(m, u, e):
    from resqpy.well import DeviationSurvey
    o = DeviationSurvey(m, uuid = u)
    return dict(common(o), mds = o.measured_depths, az = o.azimuths, inc = o.inclinations, first = tuple(o.first_station), final = o.is_final, n = o.station_count,
                datum = str(o.md_datum.uuid))


@kind('trajectory', ('md_datum',))
def _(m, r, env):
    from resqpy.well import Trajectory, MdDatum
    from resqpy.organize import WellboreInterpretation
    d = MdDatum(m, uuid = U(env.get(m, 'md_datum', r)))
    n = r.randint(2, 12)
    t, em = title(r, 'traj'), meta(r)
    mds = np.cumsum(farr(r, n, 1, 300))
    cps = np.cumsum(farr(r, (n, 3), 0, 100), axis = 0)
    rep = None
    if r.random() < 0.4:
        rep = WellboreInterpretation(m, uuid = U(env.get(m, 'wellbore_interpretation', r)))
    o = Trajectory(m, md_datum = d, mds = mds.copy(), control_points = cps.copy(), length_uom = 'm', well_name = t, represented_interp = rep,
                   set_tangent_vectors = r.random() < 0.5, extra_metadata = em)
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, mds = mds, cps = cps, datum = str(d.uuid), uom = 'm', interp = None if rep is None else str(rep.uuid))


@reader('trajectory')
def _(m, u, e):
    from resqpy.well import Trajectory
    o = Trajectory(m, uuid = u)
    ri = o.represented_interpretation_root if hasattr(o, 'represented_interpretation_root') else None
    iu = None
    if o.wellbore_interpretation is not None:
        iu = str(o.wellbore_interpretation.uuid)
    return dict(common(o), mds = o.measured_depths, cps = o.control_points, datum = str(o.md_datum.uuid), uom = o.md_uom, interp = iu)


@kind('wellbore_frame', ('trajectory',))
def _(m, r, env):
    from resqpy.well import WellboreFrame, Trajectory
    tr = Trajectory(m, uuid = U(env.get(m, 'trajectory', r)))
    t, em = title(r, 'frame'), meta(r)
    mds = np.cumsum(farr(r, r.randint(2, 15), 1, 30))
    o = WellboreFrame(m, trajectory = tr, mds = mds.copy(), title = t, extra_metadata = em)
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, mds = mds, traj = str(tr.uuid))


@reader('wellbore_frame')
def _(m, u, e):
    from resqpy.well import WellboreFrame
    o = WellboreFrame(m, uuid = u)
    return dict(common(o), mds = o.node_mds, traj = str(o.trajectory.uuid))


@kind('well_log', ('wellbore_frame',))
def _(m, r, env):
    from resqpy.well import WellboreFrame
    from resqpy.property import WellLog
    f = WellboreFrame(m, uuid = U(env.get(m, 'wellbore_frame', r)))
    lc = f.extract_log_collection()
    disc = r.random() < 0.3
    n = f.node_count
    data = iarr(r, n, 0, 50) if disc else farr(r, n, 0, 100, nan = True)
    t = title(r, 'log')
    before = set(str(u) for u in m.uuids())
    lc.add_log(t, data.copy(), 'Euc' if disc else r.choice(['gAPI', 'v/v', 'ohm.m']), discrete = disc)
    new = [u for u in m.uuids() if str(u) not in before and m.type_of_uuid(u, strip_obj = True) in ('ContinuousProperty', 'DiscreteProperty')]
    return new[-1], dict(title = t, data = data, frame = str(f.uuid), discrete = disc)


@reader('well_log')
def _(m, u, e):
    from resqpy.well import WellboreFrame
    f = WellboreFrame(m, uuid = U(e['frame']))
    lc = f.extract_log_collection()
    for log in lc.iter_logs():
        if str(log.uuid) == str(u):
            return dict(title = log.title, data = log.values(), frame = str(f.uuid), discrete = not lc.continuous_for_part(m.part(uuid = u)))
    return dict(title = None)


@kind('wellbore_marker_frame', ('trajectory',))
def _(m, r, env):
    import pandas as pd
    from resqpy.well import WellboreMarkerFrame
    tu = U(env.get(m, 'trajectory', r))
    t, em = title(r, 'markers'), meta(r)
    n = r.randint(1, 5)
    mds = np.cumsum(farr(r, n, 1, 100))
    types = [r.choice(['horizon', 'fault', 'seal', 'gas oil contact', 'oil down to']) for _ in range(n)]
    titles = [f'marker {r.randrange(1000)}' for _ in range(n)]
    ius = [env.get(m, {'horizon': 'horizon_interpretation', 'fault': 'fault_interpretation'}[x], r) if x in ('horizon', 'fault') else None for x in types]
    its = [None if u is None else env.expect(u)['title'] for u in ius]
    df = pd.DataFrame(dict(MD = mds, Boundary_Feature_Type = types, Marker_Citation_Title = titles, Interp_Citation_Title = its))
    o = WellboreMarkerFrame.from_dataframe(m, trajectory_uuid = tu, dataframe = df, create_organizing_objects_where_needed = False, title = t, extra_metadata = em)
    o.write_hdf5()
    o.create_xml(title = t)
    return o.uuid, dict(title = t, extra = em, mds = mds, types = types, titles = titles, traj = str(tu), interps = ius)


@reader('wellbore_marker_frame')
def _(m, u, e):
    from resqpy.well import WellboreMarkerFrame
    o = WellboreMarkerFrame(m, uuid = u)
    return dict(common(o), mds = o.node_mds, types = [x.marker_type for x in o.marker_list], titles = [x.title for x in o.marker_list], traj = str(o.trajectory_uuid),
                interps = [None if x.interpretation_uuid is None else str(x.interpretation_uuid) for x in o.marker_list])


@kind('blocked_well', ('regular_grid', 'trajectory'))
def _(m, r, env):
    import resqpy.grid as grr
    from resqpy.well import BlockedWell
    gu = env.get(m, 'regular_grid', r)
    g = grr.any_grid(m, uuid = U(gu))
    nk, nj, ni = g.extent_kji
    t, em = title(r, 'bw'), meta(r)
    ji = (r.randrange(nj), r.randrange(ni))
    o = BlockedWell(m, grid = g, column_ji0 = ji, well_name = t, use_face_centres = True, extra_metadata = em)
    o.write_hdf5(create_for_trajectory_if_needed = True)
    o.create_xml(create_for_trajectory_if_needed = True, title = t)
    cells = np.array([(k, ji[0], ji[1]) for k in range(nk)])
    return o.uuid, {'title': t, 'extra': em, 'cells': cells, 'grid': gu, 'count': nk, 'node_mds~': np.array(o.node_mds), 'faces': np.array(o.face_pair_indices)}


@reader('blocked_well')
def _(m, u, e):
    from resqpy.well import BlockedWell
    o = BlockedWell(m, uuid = u)
    return dict({'cells': o.cell_indices_kji0(), 'grid': str(o.grid_list[0].uuid), 'count': o.cell_count, 'node_mds~': o.node_mds,
                 'faces': np.array(o.face_pair_indices)}, **common(o))


# ------------------------------------------------------------------ grids

@kind('regular_grid', ('crs',))
def _(m, r, env):
    import resqpy.grid as grr
    cu = depth_crs(m, r, env)
    t, em = title(r, 'rgrid'), meta(r)
    ext = (r.randint(1, 4), r.randint(1, 5), r.randint(1, 5))
    dxyz = tuple(round(r.uniform(1, 100), 2) for _ in range(3))
    lattice = r.random() < 0.5
    org = (0.0, 0.0, 0.0) if (not lattice or r.random() < 0.5) else tuple(round(r.uniform(-1000, 1000), 2) for _ in range(3))
    o = grr.RegularGrid(m, extent_kji = ext, dxyz = dxyz, origin = org, crs_uuid = cu, title = t, set_points_cached = not lattice, extra_metadata = em)
    if lattice:
        o.create_xml(add_cell_length_properties = False)
    else:
        o.write_hdf5()
        o.create_xml(add_cell_length_properties = False, use_lattice = False, write_geometry = True)
    k, j, i = np.mgrid[0:ext[0] + 1, 0:ext[1] + 1, 0:ext[2] + 1]
    pts = np.stack((i * dxyz[0], j * dxyz[1], k * dxyz[2]), axis = -1)  # a non-zero origin goes into a new crs
    if any(org):
        assert str(o.crs_uuid) != str(cu)
        c0 = dict(env.expect(str(cu)))
        for n, c in enumerate('xyz'):
            c0[f'{c}_offset~'] = (c0.pop(f'{c}_offset') if f'{c}_offset' in c0 else c0[f'{c}_offset~']) + org[n]
        env.objs.append(('crs', str(o.crs_uuid), c0))
        cu = o.crs_uuid
    return o.uuid, {'title': t, 'extra': em, 'crs': str(cu), 'ext': ext, 'pts~': pts, 'lattice': lattice}


@reader('regular_grid')
def _(m, u, e):
    import resqpy.grid as grr
    o = grr.any_grid(m, uuid = u)
    em = {k: v for k, v in o.extra_metadata.items() if k in e.get('extra', {})}
    return {'title': o.title, 'extra': em, 'crs': str(o.crs_uuid), 'ext': tuple(o.extent_kji), 'pts~': o.points_ref(), 'lattice': e['lattice']}


@kind('grid_at_origin')
def _(m, r, env):
    """A regular grid with an origin, in a coordinate system without offsets (see known_findings.json)."""
    import resqpy.grid as grr
    from resqpy.crs import Crs
    c = Crs(m, title = title(r, 'plain'))
    c.create_xml(reuse = False)
    org = tuple(round(r.uniform(1, 1000), 2) for _ in range(3))
    o = grr.RegularGrid(m, extent_kji = (2, 1, 3), dxyz = (10.0, 10.0, 10.0), origin = org, crs_uuid = c.uuid, title = title(r, 'ogrid'))
    o.create_xml(add_cell_length_properties = False)
    return o.uuid, {'origin': 'where it was put', 'org': org}


@reader('grid_at_origin')
def _(m, u, e):
    import resqpy.grid as grr
    o = grr.any_grid(m, uuid = u)
    p = o.crs.local_to_global(tuple(o.points_ref()[0, 0, 0]))
    return {'origin': 'where it was put' if same(e['org'], p, True) else 'as if at zero' if same((0.0, 0.0, 0.0), p, True) else str(p), 'org': e['org']}


@kind('faulted_grid', ('crs',))
def _(m, r, env):
    import resqpy.grid as grr
    import resqpy.rq_import as rqi
    cu = depth_crs(m, r, env)
    t = title(r, 'fgrid')
    nk, nj, ni = r.randint(1, 3), r.randint(1, 4), r.randint(2, 5)
    k, j, i = np.mgrid[0:nk + 1, 0:nj + 1, 0:ni + 1]
    base = np.stack((i * 100.0, j * 80.0, 1000.0 + k * 10.0), axis = -1)
    cp = np.empty((nk, nj, ni, 2, 2, 2, 3))
    for kp in range(2):
        for jp in range(2):
            for ip in range(2):
                cp[:, :, :, kp, jp, ip] = base[kp:nk + kp, jp:nj + jp, ip:ni + ip]
    throw = round(r.uniform(1, 40), 1)
    fi = r.randint(1, ni - 1)
    cp[:, :, fi:, ..., 2] += throw
    act = nprng(r).rand(nk, nj, ni) > 0.2
    if not act.any():
        act[:] = True
    o = rqi.grid_from_cp(m, cp.copy(), cu, active_mask = act.copy(), known_to_be_straight = True)
    o.title = t
    o.write_hdf5()
    o.create_xml(title = t)
    return o.uuid, {'title': t, 'crs': str(cu), 'ext': (nk, nj, ni), 'cp~': cp, 'inactive': ~act}


@reader('faulted_grid')
def _(m, u, e):
    import resqpy.grid as grr
    o = grr.any_grid(m, uuid = u)
    return {'title': o.title, 'crs': str(o.crs_uuid), 'ext': tuple(o.extent_kji), 'cp~': o.corner_points(), 'inactive': o.extract_inactive_mask()}


@kind('tetra_grid', ('crs',))
def _(m, r, env):
    import resqpy.unstructured as rug
    cu = depth_crs(m, r, env)
    t = title(r, 'tetra')
    o = rug.TetraGrid(m, title = t)
    o.crs_uuid = cu
    o.set_cell_count(2)
    o.face_count = 7
    pts = farr(r, (5, 3))
    o.nodes_per_face_cl = np.arange(3, 3 * 7 + 1, 3, dtype = int)
    npf = np.array((0, 1, 2, 0, 3, 1, 1, 3, 2, 2, 3, 0, 0, 4, 1, 1, 4, 3, 0, 3, 4), dtype = int)
    o.nodes_per_face = npf.copy()
    o.faces_per_cell_cl = np.arange(4, 2 * 4 + 1, 4, dtype = int)
    fpc = np.array((0, 1, 2, 3, 1, 4, 5, 6), dtype = int)
    o.faces_per_cell = fpc.copy()
    rh = np.array([r.random() < 0.5 for _ in range(8)], dtype = bool)
    o.cell_face_is_right_handed = rh.copy()
    o.node_count = 5
    o.points_cached = pts.copy()
    o.write_hdf5()
    o.create_xml()
    return o.uuid, dict(title = t, crs = str(cu), pts = pts, npf = npf, fpc = fpc, rh = rh, n = 2, nf = 7, shape = 'tetrahedral')


@reader('tetra_grid')
def _(m, u, e):
    import resqpy.unstructured as rug
    o = rug.TetraGrid(m, uuid = u)
    o.cache_all_geometry_arrays()
    return dict(title = o.title, crs = str(o.crs_uuid), pts = o.points_cached, npf = o.nodes_per_face, fpc = o.faces_per_cell, rh = o.cell_face_is_right_handed,
                n = o.cell_count, nf = o.face_count, shape = o.cell_shape)


@kind('gcs', ('regular_grid',))
def _(m, r, env):
    import resqpy.grid as grr
    from resqpy.fault import GridConnectionSet
    gu = env.get(m, 'regular_grid', r)
    g = grr.any_grid(m, uuid = U(gu))
    nk, nj, ni = g.extent_kji
    kf = np.zeros((max(nk - 1, 0), nj, ni), dtype = bool)
    jf = np.zeros((nk, max(nj - 1, 0), ni), dtype = bool)
    i_f = np.zeros((nk, nj, max(ni - 1, 0)), dtype = bool)
    for a in (kf, jf, i_f):
        if a.size:
            a.reshape(-1)[:] = nprng(r).rand(a.size) < 0.4
    if not (kf.any() or jf.any() or i_f.any()):
        for a in (kf, jf, i_f):
            if a.size:
                a.reshape(-1)[0] = True
                break
    if not (kf.any() or jf.any() or i_f.any()):
        return env.get(m, 'regular_grid', r), None
    t = title(r, 'gcs')
    o = GridConnectionSet(m, grid = g, k_faces = kf if kf.size else None, j_faces = jf if jf.size else None, i_faces = i_f if i_f.size else None,
                          feature_name = t, feature_type = 'fault', create_organizing_objects_where_needed = True, title = t)
    pairs, faces = np.array(o.cell_index_pairs), np.array(o.face_index_pairs)
    o.write_hdf5()
    o.create_xml(title = t)
    return o.uuid, dict(title = t, grid = gu, n = int(kf.sum() + jf.sum() + i_f.sum()), pairs = pairs, faces = faces, names = [t.strip()])


@reader('gcs')
def _(m, u, e):
    from resqpy.fault import GridConnectionSet
    o = GridConnectionSet(m, uuid = u)
    o.cache_arrays()
    return dict(title = o.title, grid = str(o.grid_list[0].uuid), n = o.count, pairs = o.cell_index_pairs, faces = o.face_index_pairs,
                names = o.list_of_fault_names(strip = False))


# ------------------------------------------------------------------ properties

@kind('property', ('regular_grid',))
def _(m, r, env):
    import resqpy.grid as grr
    from resqpy.property import Property
    gu = env.get(m, 'regular_grid', r)
    ge = env.expect(gu)
    nk, nj, ni = ge['ext']
    style = r.choice(['cont', 'cont', 'disc', 'disc', 'cat', 'const', 'cont32', 'points', 'bool', 'vec', 'column'])
    t, em = title(r, 'prop'), meta(r)
    kw = dict(property_kind = 'porosity', uom = 'm3/m3', indexable_element = 'cells', discrete = False, null_value = None, count = 1, points = False, const_value = None)
    shape = (nk, nj, ni)
    exp_extra = {}
    arr = None
    if style == 'column':
        shape = (nj, ni)
        kw.update(indexable_element = 'columns', property_kind = 'thickness', uom = 'm')
    if style in ('cont', 'cont32', 'column'):
        arr = farr(r, shape, nan = True)
        if style == 'cont32':
            arr = arr.astype(np.float32)
            exp_extra['dtype_hint'] = 'f4'
    elif style == 'disc':
        arr = iarr(r, shape)
        kw.update(property_kind = 'zone', uom = None, discrete = True, null_value = r.choice([None, -1]))
    elif style == 'cat':
        lu = env.get(m, 'string_lookup', r)
        keys = sorted(env.expect(lu)['table'])
        arr = np.array([keys[r.randrange(len(keys))] for _ in range(nk * nj * ni)], dtype = int).reshape(shape)
        kw.update(property_kind = 'facies', uom = None, discrete = True, string_lookup_uuid = U(lu))
    elif style == 'const':
        kw.update(const_value = round(r.uniform(-5, 5), 3))
        arr = None
    elif style == 'points':
        kw.update(property_kind = 'length', uom = 'm', points = True)
        arr = farr(r, shape + (3,))
    elif style == 'bool':
        arr = nprng(r).rand(*shape) > 0.5
        kw.update(property_kind = 'code', uom = None, discrete = True)
    elif style == 'vec':
        kw.update(count = 3, property_kind = 'length', uom = 'm')
        arr = farr(r, shape + (3,))
    if r.random() < 0.35 and style in ('cont', 'disc'):
        kw['realization'] = r.randrange(5)
    if r.random() < 0.35 and style in ('cont',):
        kw.update(facet_type = 'direction', facet = r.choice('IJK'))
    if r.random() < 0.3 and style in ('cont', 'disc'):
        ts = env.get(m, 'time_series', r)
        kw.update(time_series_uuid = U(ts), time_index = r.randrange(len(env.expect(ts)['stamps'])))
    pack = style == 'bool' and r.random() < 0.5
    o = Property.from_array(m, None if arr is None else arr.copy(), source_info = 'zoo', keyword = t, support_uuid = U(gu), extra_metadata = em, use_pack = pack,
                            dtype = np.uint8 if (style == 'bool' and not pack) else (np.float32 if style == 'cont32' else None),
                            **kw)
    full = np.full((nk, nj, ni), kw['const_value']) if style == 'const' else arr
    if style == 'bool':
        full = arr.astype(int)
    e = dict(title = t, style = style, support = gu, array = full, kind = kw['property_kind'], uom = kw['uom'], continuous = not kw['discrete'],
             realization = kw.get('realization'), facet = kw.get('facet'), time_index = kw.get('time_index'),
             ts = None if 'time_series_uuid' not in kw else str(kw['time_series_uuid']), indexable = kw['indexable_element'], pack = pack,
             lookup = None if 'string_lookup_uuid' not in kw else str(kw['string_lookup_uuid']))
    return o.uuid, e


@reader('property')
def _(m, u, e):
    from resqpy.property import Property
    o = Property(m, uuid = u)
    if e['style'] == 'bool':
        a = o.array_ref(dtype = bool, use_pack = True) if False else o.array_ref(dtype = bool)
        a = a.astype(int)
    elif e['style'] == 'cont32':
        a = o.array_ref(dtype = np.float32)
    elif e['style'] == 'const':
        o.collection.expand_const_arrays = True if False else None
        c = o.constant_value()
        a = np.full(e['array'].shape, c)
    else:
        a = o.array_ref()
    cont = o.is_continuous()
    tsu = o.time_series_uuid()
    lu = o.string_lookup_uuid()
    pk = o.property_kind()
    return dict(title = o.title, style = e['style'], support = str(o.collection.support_uuid), array = a, kind = pk, uom = o.uom() if cont and not o.is_points() else e['uom'],
                continuous = cont or o.is_points(), realization = o.realization(), facet = o.facet(), time_index = o.time_index(),
                ts = None if tsu is None else str(tsu), indexable = o.indexable_element(), pack = e['pack'], lookup = None if lu is None else str(lu))


# ------------------------------------------------------------------ tables of data

@kind('dataframe')
def _(m, r, env):
    import pandas as pd
    from resqpy.olio.dataframe import DataFrame
    n, c = r.randint(1, 8), r.randint(1, 4)
    cols = [f'COL {i}' for i in range(c)]
    data = farr(r, (n, c))
    df = pd.DataFrame(data.copy(), columns = cols)
    uoms = [r.choice(['m', 'psi', 'm3/d', 'Euc']) for _ in cols]
    t = title(r, 'df')
    rz = r.choice([None, None, 3])
    o = DataFrame(m, df = df, uom_list = uoms, realization = rz, title = t)
    o.write_hdf5_and_create_xml()
    return o.mesh.uuid, dict(data = data, cols = cols, uoms = uoms, rz = rz)


@reader('dataframe')
def _(m, u, e):
    from resqpy.olio.dataframe import DataFrame
    o = DataFrame(m, uuid = u, realization = e['rz'])
    d = o.dataframe()
    return dict(data = d.values, cols = list(d.columns), uoms = o.uom_list, rz = e['rz'])


# ------------------------------------------------------------------ stratigraphy

@kind('strat_unit_feature')
def _(m, r, env):
    from resqpy.strata import StratigraphicUnitFeature
    t, em = title(r, 'suf'), meta(r)
    o = StratigraphicUnitFeature(m, title = t, extra_metadata = em)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em)


@reader('strat_unit_feature')
def _(m, u, e):
    from resqpy.strata import StratigraphicUnitFeature
    return common(StratigraphicUnitFeature(m, uuid = u))


@kind('strat_unit_interp', ('strat_unit_feature',))
def _(m, r, env):
    from resqpy.strata import StratigraphicUnitFeature, StratigraphicUnitInterpretation
    f = StratigraphicUnitFeature(m, uuid = U(env.get(m, 'strat_unit_feature', r)))
    t, em = title(r, 'sui'), meta(r)
    kw = dict(domain = r.choice(['depth', 'time', 'mixed']), composition = r.choice([None, 'intrusive clay', 'organic']), material_implacement = r.choice([None, 'autochtonous', 'allochtonous']),
              deposition_mode = r.choice([None, 'parallel to top', 'parallel to bottom']))
    thick = r.random() < 0.5
    if thick:
        kw.update(min_thickness = round(r.uniform(0, 10), 2), max_thickness = round(r.uniform(11, 20), 2), thickness_uom = 'm')
    o = StratigraphicUnitInterpretation(m, title = t, stratigraphic_unit_feature = f, extra_metadata = em, **kw)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, domain = kw['domain'], composition = kw['composition'], implacement = kw['material_implacement'], dep = kw['deposition_mode'],
                        mn = kw.get('min_thickness'), mx = kw.get('max_thickness'))


@reader('strat_unit_interp')
def _(m, u, e):
    from resqpy.strata import StratigraphicUnitInterpretation
    o = StratigraphicUnitInterpretation(m, uuid = u)
    return dict(common(o), domain = o.domain, composition = o.composition, implacement = o.material_implacement, dep = o.deposition_mode, mn = o.min_thickness, mx = o.max_thickness)


@kind('strat_rank', ('strat_unit_interp', 'organization_feature'))
def _(m, r, env):
    from resqpy.strata import StratigraphicColumnRank
    ofs = [o for o in env.of('organization_feature') if o[2]['kind'] == 'earth model']
    if ofs:
        of = ofs[r.randrange(len(ofs))][1]
    else:
        import resqpy.organize as rqo
        ft = title(r, 'emf')
        f = rqo.OrganizationFeature(m, feature_name = ft, organization_kind = 'earth model')
        f.create_xml()
        of = str(f.uuid)
        env.objs.append(('organization_feature', of, dict(title = ft, extra = {}, kind = 'earth model')))
    n = r.randint(1, 4)
    units = [env.make(m, 'strat_unit_interp', r.randrange(1 << 30)) for _ in range(n)]
    t, em, ri = title(r, 'rank'), meta(r), r.randrange(4)
    o = StratigraphicColumnRank(m, domain = r.choice(['depth', 'time']), rank_index = ri, earth_model_feature_uuid = U(of), strata_uuid_list = [U(u) for u in units],
                                title = t, extra_metadata = em)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, index = ri, units = units, domain = o.domain)


@reader('strat_rank')
def _(m, u, e):
    from resqpy.strata import StratigraphicColumnRank
    o = StratigraphicColumnRank(m, uuid = u)
    return dict(common(o), index = o.index, units = [str(x.uuid) for _, x in o.iter_units()] if False else [str(x[1].uuid) for x in o.units], domain = o.domain)


@kind('strat_column', ('strat_rank',))
def _(m, r, env):
    from resqpy.strata import StratigraphicColumn
    ranks = [env.make(m, 'strat_rank', r.randrange(1 << 30))]
    t, em = title(r, 'column'), meta(r)
    o = StratigraphicColumn(m, rank_uuid_list = [U(u) for u in ranks], title = t, extra_metadata = em)
    o.create_xml()
    return o.uuid, dict(title = t, extra = em, ranks = ranks)


@reader('strat_column')
def _(m, u, e):
    from resqpy.strata import StratigraphicColumn
    o = StratigraphicColumn(m, uuid = u)
    return dict(common(o), ranks = [str(x.uuid) for x in o.ranks])


# ------------------------------------------------------------------ comparison

def same(a, b, tol = False):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if a is None or b is None:
            return False
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if tol:
            return bool(np.allclose(a, b, rtol = 1e-6, atol = 1e-6, equal_nan = True))
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            return bool(np.array_equal(a.astype(float), b.astype(float), equal_nan = True))
        return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, float) and isinstance(b, (float, int)) and not isinstance(b, bool):
        return abs(a - b) <= (1e-6 * max(1.0, abs(a)) if tol else 0.0) or (a != a and b != b)
    return a == b


def diff(expect, got):
    """First difference as text, or None."""
    for k, v in expect.items():
        if k not in got:
            return f'{k}: missing'
        if not same(v, got[k], k.endswith('~')):
            return f'{k}: expected {short(v)} got {short(got[k])}'
    return None


def short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:160] + '...'


ALL = None


def all_kinds():
    return sorted(k for k in KINDS if k not in APART)


from . import zoo2  # noqa: more kinds
from . import zoo3  # noqa: more kinds

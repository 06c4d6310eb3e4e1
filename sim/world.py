"""A model under edit: seeded edit operations shared by several properties."""
import random

from . import oracle, zoo

CHEAP = ['crs', 'boundary_feature', 'tectonic_boundary_feature', 'genetic_boundary_feature', 'wellbore_feature', 'string_lookup', 'property_kind', 'time_series',
         'organization_feature', 'fault_interpretation', 'horizon_interpretation', 'wellbore_interpretation', 'md_datum', 'strat_unit_interp', 'geobody_interpretation',
         'earth_model_interpretation', 'geologic_time_series', 'rock_fluid_unit_feature', 'strat_rank', 'regular_grid']
ARRAYS = ['pointset', 'polyline', 'polyline_set', 'surface', 'mesh', 'tri_mesh', 'deviation_survey', 'trajectory', 'wellbore_frame', 'well_log', 'property', 'property',
          'faulted_grid', 'tetra_grid', 'gcs', 'blocked_well', 'dataframe', 'wellbore_marker_frame']


def gen_edit(rng, arrays = 0.4, remove = 0.12, others = 0.25):
    x = rng.random()
    s = rng.randrange(1 << 30)
    if x < remove:
        return ['remove', s]
    if x < remove + others:
        return [rng.choice(['retitle', 'meta', 'relate', 'patch', 'retitle', 'meta', 'relate', 'patch', 'subdir']), s]
    if rng.random() < arrays:
        return ['add', rng.choice(ARRAYS), s]
    return ['add', rng.choice(CHEAP), s]


def gen_edits(rng, lo, hi, **kw):
    return [gen_edit(rng, **kw) for _ in range(rng.randint(lo, hi))]


def parts_sorted(m):
    """Object parts in a reproducible order (order of addition)."""
    return [p for p in m.parts() if 'EpcExternalPartReference' not in p and '/' not in p]


class World:
    """A model plus the reference knowledge of its objects."""

    def __init__(self, model, env = None):
        self.m = model
        self.env = env or zoo.Env()
        self.removed = []
        self.soft = set()  # frozenset pairs related through create_reciprocal_relationship

    def pick(self, r, n = 1):
        ps = parts_sorted(self.m)
        if len(ps) < n:
            return None
        return r.sample(ps, n)

    def apply(self, op):
        import resqpy.olio.xml_et as rqet
        m = self.m
        k = op[0]
        if k == 'add':
            self.env.make(m, op[1], op[2])
            return True
        r = random.Random(op[-1])
        if k == 'subdir':
            import resqpy.organize as rqo
            t = zoo.title(r, 'in subdir')
            f = rqo.BoundaryFeature(m, feature_name = t)
            node = f.create_xml(add_as_part = False, reuse = False)
            m.add_part('obj_BoundaryFeature', f.uuid, node, epc_subdir = r.choice(['wells', 'wells/', 'deep/er']))
            self.env.objs.append(('boundary_feature', str(f.uuid), dict(title = t, extra = {})))
            return True
        sel = self.pick(r, 2 if k == 'relate' else 1)
        if sel is None:
            return False
        if k == 'remove':
            # only remove parts that nothing else refers to: dangling references are the user's own doing
            us = m.uuid_for_part(sel[0])
            if m.uuids(related_uuid = us) and any(str(us) in refs for refs in self.refs_by_others(us)):
                return False
            m.remove_part(sel[0])
            self.forget(str(us))
            return True
        root = m.root_for_part(sel[0])
        if k == 'retitle':
            t = zoo.title(r, 'renamed')
            rqet.find_tag(rqet.find_tag(root, 'Citation'), 'Title').text = t
            m.set_modified()
            self.forget(str(m.uuid_for_part(sel[0])), keep = True)
        elif k == 'meta':
            rqet.create_metadata_xml(root, {f'k{r.randrange(5)} {r.randrange(10**6)}': r.choice(['v & w', 'é', '<1>', '0.25'])})
            m.set_modified()
            self.forget(str(m.uuid_for_part(sel[0])), keep = True)
        elif k == 'relate':
            ra, rb = root, m.root_for_part(sel[1])
            if any(str(m.uuid_for_part(p)) in self.env.aux for p in sel):
                return False  # a relationship with, say, the lookup table of a data frame has a meaning
            if m.uuid_for_part(sel[1]) in (m.uuids(related_uuid = m.uuid_for_part(sel[0])) or []):
                return False
            m.create_reciprocal_relationship(ra, 'destinationObject', rb, 'sourceObject')
            m.set_modified()
            self.soft.add(frozenset((str(m.uuid_for_part(sel[0])), str(m.uuid_for_part(sel[1])))))
        elif k == 'patch':
            import copy
            new = copy.deepcopy(root)
            rqet.find_tag(rqet.find_tag(new, 'Citation'), 'Title').text = zoo.title(r, 'patched')
            m.patch_root_for_part(sel[0], new)
            m.set_modified()
            self.forget(str(m.uuid_for_part(sel[0])), keep = True)
        return True

    def refs_by_others(self, us):
        for p in parts_sorted(self.m):
            if self.m.uuid_for_part(p) != us:
                yield oracle.references(self.m.root_for_part(p))

    def forget(self, uuid, keep = False):
        """Stop expecting the recorded values of an object that was removed or edited at xml level."""
        # what came along with an object (an active cell mask, a lookup table) is part of what was recorded of it
        for owner in self.env.aux.get(uuid, []):
            self.env.objs = [o for o in self.env.objs if o[1] != owner]
        self.env.objs = [(k, u, (None if keep and u == uuid else e)) for (k, u, e) in self.env.objs if keep or u != uuid]
        if keep:
            self.env.objs = [o for o in self.env.objs if o[2] is not None]
        else:
            self.removed.append(uuid)
            self.soft = {p for p in self.soft if uuid not in p}

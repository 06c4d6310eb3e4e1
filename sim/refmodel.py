"""Brute force reference of a model's catalogue and relationships, computed from raw xml (of the in-memory trees or
of the stored package) without resqpy."""
from . import oracle
from .oracle import local


class Part:
    __slots__ = ('name', 'uuid', 'type', 'title', 'extra', 'meta', 'created', 'refs', 'ext', 'rels', 'root', 'supporting')


def _xtype(root):
    for k, v in root.attrib.items():
        if k.rsplit('}', 1)[-1] == 'type':
            return v.rsplit('}', 1)[-1].rsplit(':', 1)[-1]
    return None


def _text(e):
    return (e.text or '').strip()


def ext_refs(root):
    """Uuids of hdf5 external parts referred to by datasets below root."""
    s = set()
    for e in root.iter():
        if isinstance(e.tag, str) and local(e.tag) == 'HdfProxy':
            for c in e:
                if isinstance(c.tag, str) and local(c.tag) == 'UUID' and c.text:
                    s.add(c.text.strip().lower())
    return s


def supporting(root):
    for c in root:
        if isinstance(c.tag, str) and local(c.tag) == 'SupportingRepresentation':
            for d in c:
                if isinstance(d.tag, str) and local(d.tag) == 'UUID':
                    return d.text.strip().lower()
    return None


class Ref:

    def __init__(self, roots, with_rels = True):
        """roots: ordered {member name: xml root}."""
        self.parts = {}
        rels = {}
        for n, r in roots.items():
            n = n[1:] if n.startswith('/') else n
            if n.startswith('_rels/') or '/_rels/' in n:
                rels[n] = r
                continue
            if n.startswith('docProps') or n == '[Content_Types].xml':
                continue
            p = Part()
            p.name, p.root = n, r
            p.uuid = r.attrib['uuid'].lower()
            p.type = _xtype(r) or local(r.tag)
            if not p.type.startswith('obj_'):
                p.type = 'obj_' + p.type
            cit = oracle.citation(r)
            p.title = cit.get('Title') or ''
            p.created = cit.get('Creation') or ''
            p.extra = {}
            for c in r:
                if isinstance(c.tag, str) and local(c.tag) == 'ExtraMetadata':
                    f = {local(x.tag): _text(x) for x in c if isinstance(x.tag, str)}
                    p.extra[f.get('Name')] = f.get('Value')
            p.meta = {}
            for c in r:
                if isinstance(c.tag, str) and local(c.tag) not in p.meta:
                    p.meta[local(c.tag)] = c.text
            p.refs = set(oracle.references(r))
            p.ext = ext_refs(r)
            p.supporting = supporting(r)
            p.rels = None
            self.parts[n] = p
        self.by_uuid = {p.uuid: p for p in self.parts.values()}
        self.rels = {}
        self.h5_targets = {}
        for n, r in rels.items():
            tg = []
            for c in r:
                if not isinstance(c.tag, str):
                    continue
                t = c.attrib.get('Target', '')
                if c.attrib.get('TargetMode') == 'External':
                    self.h5_targets[n] = t
                else:
                    tg.append(t[1:] if t.startswith('/') else t)
            self.rels[n] = tg
        for p in self.parts.values():
            d, _, f = p.name.rpartition('/')
            p.rels = self.rels.get((d + '/' if d else '') + '_rels/' + f + '.rels')

    def objects(self):
        return [p for p in self.parts.values() if 'EpcExternalPartReference' not in p.type]

    def exts(self):
        return [p for p in self.parts.values() if 'EpcExternalPartReference' in p.type]

    def relations(self):
        """{uuid: (referenced, referencing, softly related)} with only non-empty entries' uuids guaranteed present."""
        d = {p.uuid: (set(), set(), set()) for p in self.objects()}
        for p in self.objects():
            for u in p.refs:
                d[p.uuid][0].add(u)
                if u in d:
                    d[u][1].add(p.uuid)
        for p in self.objects():
            for t in p.rels or []:
                q = self.parts.get(t)
                if q is None or 'EpcExternalPartReference' in q.type:
                    continue
                if q.uuid not in d[p.uuid][0] and q.uuid not in d[p.uuid][1]:
                    d[p.uuid][2].add(q.uuid)
        return d

    def relationship_fault(self, elsewhere = ()):
        """First broken rule among: every reference has a relationship in both rels parts; relationships are symmetric;
        no relationship or reference to an absent part; hdf5 users are related to the external part."""
        for p in self.parts.values():
            if p.rels is None:
                return f'part {p.name} has no relationships part'
            for t in p.rels:
                q = self.parts.get(t)
                if q is None:
                    return f'relationship of {p.name} to absent part {t}'
                if q.rels is None or p.name not in q.rels:
                    return f'relationship of {p.name} to {t} has no counterpart'
            if len(set(p.rels)) != len(p.rels):
                return f'duplicate relationship in {p.name}'
            if p in self.exts():
                continue
            for u in p.refs:
                q = self.by_uuid.get(u)
                if q is None:
                    if u in elsewhere:
                        continue
                    return f'{p.name} refers to absent uuid {u}'
                if q.name not in p.rels:
                    return f'{p.name} refers to {q.name} without a relationship'
            for u in p.ext:
                q = self.by_uuid.get(u)
                if q is None:
                    return f'{p.name} refers to absent external part {u}'
                if q.name not in p.rels:
                    return f'{p.name} has hdf5 data in {q.name} without a relationship'
        known = set(self.parts)
        for n in self.rels:
            if n == '_rels/.rels':
                continue
            d, _, f = n.rpartition('/')
            d = d[:-5].rstrip('/')
            part = (d + '/' if d else '') + f[:-5]
            if part not in known:
                return f'relationships part {n} of an absent part'
        return None


def of_model(m):
    roots = {}
    for n, (_, _, t) in m.parts_forest.items():
        if t is not None:
            roots[n] = t.getroot()
    for n, (_, t) in m.rels_forest.items():
        if t is not None:
            roots[n] = t.getroot()
    return Ref(roots)


def of_file(path):
    return Ref(oracle.zip_roots(path))

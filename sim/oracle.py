"""Oracles that do not use the code under test: an independent reader of epc files, canonical xml."""
import hashlib
import re
import xml.etree.ElementTree as ET
import zipfile

UUID_RE = re.compile(r'[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}')


def _attr(k, v):
    if k.rsplit('}', 1)[-1] == 'type':  # a qualified name: compare its local part
        v = v.rsplit('}', 1)[-1].rsplit(':', 1)[-1]
    elif k == 'PartName' and v.startswith('/'):
        v = v[1:]
    return (k, v)


def canon(e):
    """Canonical nested tuple of an xml element: tag, attributes, text (white space only text ignored), children."""
    tag = e.tag
    text = e.text or ''
    if len(e):
        text = text.strip()
    elif not text.strip():
        text = 'untitled' if tag.endswith('Title') else ''
    return (tag, tuple(sorted(_attr(k, v) for k, v in e.attrib.items())), text, tuple(canon(c) for c in e if isinstance(c.tag, str)))


def digest(e):
    return hashlib.sha256(repr(canon(e)).encode()).hexdigest()[:20]


def zip_roots(path):
    """{member name: xml root} of a zip file, checking crcs; raises if not a complete, well formed epc."""
    d = {}
    with zipfile.ZipFile(path) as z:
        names = z.namelist()
        if len(set(names)) != len(names):
            raise ValueError('duplicate member names in epc')
        for n in names:
            d[n] = ET.fromstring(z.read(n))
    return d


def zip_content(path):
    return {n: digest(r) for n, r in zip_roots(path).items()}


def _nm(n):
    return n[1:] if n.startswith('/') else n


def memory_content(m):
    """What a complete store of the in-memory model must contain: {member name: digest}."""
    d = {'[Content_Types].xml': digest(m.main_tree.getroot())}
    for n, (_, _, t) in m.parts_forest.items():
        if t is not None:
            d[_nm(n)] = digest(t.getroot())
    for n, (_, t) in m.other_forest.items():
        if t is not None:
            d[_nm(n)] = digest(t.getroot())
    if m.rels_present:
        for n, (_, t) in m.rels_forest.items():
            if t is not None:
                d[_nm(n)] = digest(t.getroot())
    return d


def local(tag):
    return tag.rsplit('}', 1)[-1]


def content_type_parts(root):
    """Part names listed in the content types xml."""
    return [_nm(c.attrib['PartName']) for c in root if local(c.tag) == 'Override']


def rels_targets(root):
    return [(c.attrib.get('Type', '').rsplit('/', 1)[-1], c.attrib.get('Target'), c.attrib.get('TargetMode')) for c in root]


def structure_fault(roots):
    """First structural defect of a stored package, or None: content types and members agree, rels refer to members."""
    ct = roots.get('[Content_Types].xml')
    if ct is None:
        return 'no [Content_Types].xml'
    listed = content_type_parts(ct)
    members = [n for n in roots if n != '[Content_Types].xml' and not n.startswith('_rels/') and '/_rels/' not in n]
    if len(set(listed)) != len(listed):
        return 'content types lists a part twice: ' + str([n for n in listed if listed.count(n) > 1][:2])
    if set(listed) != set(members):
        return f'content types and members differ: {sorted(set(listed) ^ set(members))[:3]}'
    uuids = {}
    for n in members:
        if n.startswith('docProps'):
            continue
        u = roots[n].attrib.get('uuid')
        f = UUID_RE.search(n)
        if u is None or f is None or f.group(0).lower() != u.lower():
            return f'uuid of part {n} does not match its name: {u}'
        if u in uuids:
            return f'uuid {u} in two parts'
        uuids[u] = n
    return None


def diff_content(a, b):
    """Text describing the first differences of two content dictionaries."""
    lost = sorted(set(a) - set(b))[:2]
    extra = sorted(set(b) - set(a))[:2]
    chg = [k for k in sorted(set(a) & set(b)) if a[k] != b[k]][:2]
    return f'missing {lost} extra {extra} changed {chg}'


def references(root):
    """Uuids referred to by DataObjectReference-like sub-elements, other than external (hdf5) parts: {uuid: type}."""
    d = {}
    for e in root.iter():
        if not isinstance(e.tag, str):
            continue
        ct, u = None, None
        for c in e:
            if not isinstance(c.tag, str):
                continue
            t = local(c.tag)
            if t == 'ContentType':
                ct = c.text or ''
            elif t in ('UUID', 'Uuid'):
                u = c.text
        if ct is not None and u and 'EpcExternalPartReference' not in ct:
            d[u.strip().lower()] = ct.split('type=')[-1]
    return d


def citation(root):
    """Citation fields of an object root."""
    for c in root:
        if isinstance(c.tag, str) and local(c.tag) == 'Citation':
            return {local(x.tag): (x.text or '') for x in c if isinstance(x.tag, str)}
    return {}


def extra_metadata(root):
    d = {}
    for c in root:
        if isinstance(c.tag, str) and local(c.tag) == 'ExtraMetadata':
            f = {local(x.tag): (x.text or '') for x in c if isinstance(x.tag, str)}
            if 'Name' in f:
                d[f['Name']] = f.get('Value', '')
    return d

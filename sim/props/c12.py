"""C12: loops divided over threads give the same answer under every division, batching and interleaving."""
import math
import os
import random
import sys

import numpy as np

from .. import core, threads, zoo
from ..core import check
from ..saving import SaveProp

threads.install()  # ahead of resqpy

EPS = 1e-7


def in_polygon(x, y, poly):
    """True, False or None (too close to the boundary to say)."""
    n = len(poly)
    inside = False
    for k in range(n):
        x1, y1 = poly[k]
        x2, y2 = poly[(k + 1) % n]
        ll = (x2 - x1)**2 + (y2 - y1)**2
        t = 0.0 if ll == 0.0 else max(0.0, min(1.0, ((x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / ll))
        if math.hypot(x1 + t * (x2 - x1) - x, y1 + t * (y2 - y1) - y) < EPS:
            return None
        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            inside = not inside
    return inside


def tri_points(nx, ny, tris):
    """For each (triangle, y, x): True for points inside, None for those on the boundary; points are at integers."""
    d = {}
    for t, tri in enumerate(tris):
        for yi in range(ny):
            for xi in range(nx):
                v = in_polygon(float(xi), float(yi), tri)
                if v is not False:
                    d[(t, yi, xi)] = v
    return d


def compare(rows, want, what):
    rows = [tuple(int(v) for v in r) for r in rows]
    check(len(set(rows)) == len(rows), 'duplicate', f'{what}: a row is repeated')
    have = set(rows)
    missing = sorted(k for k, v in want.items() if v and k not in have)
    extra = sorted(k for k in have if k not in want)
    check(not missing, 'missing', lambda: f'{what}: {len(missing)} points missing, such as {missing[0]}')
    check(not extra, 'extra', lambda: f'{what}: {len(extra)} points outside, such as {extra[0]}')


def coord(r, n, fine):
    v = r.uniform(-0.3 * n, 1.3 * n)
    return round(v * 2) / 2 if not fine else v


def gen_tris(r, n, nx, ny, fine, three):
    out = []
    for _ in range(n):
        small = r.random() < 0.4
        cx, cy = r.uniform(0, nx), r.uniform(0, ny)
        t = []
        for _ in range(3):
            x = cx + r.uniform(-1.5, 1.5) if small else coord(r, nx, fine)
            y = cy + r.uniform(-1.5, 1.5) if small else coord(r, ny, fine)
            t.append([x, y] + ([r.uniform(-2.0, 9.0)] if three else []))
        out.append(t)
    return np.array(out, dtype = float).reshape((n, 3, 3 if three else 2))


def area2(t):
    return (t[1][0] - t[0][0]) * (t[2][1] - t[0][1]) - (t[2][0] - t[0][0]) * (t[1][1] - t[0][1])


def once(c, plan, sch, f):
    threads.use(sch)
    try:
        return f()
    finally:
        threads.use(None)
        if sch is not None:
            c.event('interleaving', sch.loops, sch.trace)
            c.probe('loops-divided', sch.loops)
            c.probe('switches', sch.switches)
            c.probe('scheduling-points', sch.ticks)
            c.state(core.sha(plan['kind'], sch.trace))


def schedules(plan):
    return [threads.Schedule(s['threads'], s['sched']) for s in plan['schedules']]


def run(c, plan):
    import resqpy.olio.vector_utilities as vec
    r = random.Random(plan['q'])
    kind = plan['kind']
    if kind in ('polygon', 'polygons'):
        return polygon(c, plan, vec, r)
    if kind in ('aligned', 'unified'):
        return triangles(c, plan, vec, r)
    return surfaces(c, plan, r)


def polygon(c, plan, vec, r):
    nx, ny = r.randint(1, 8), r.randint(1, 6)
    pts = np.array([(coord(r, nx, True), coord(r, ny, True)) + ((r.random(),) if plan['three'] else ()) for _ in range(nx * ny)])
    k = r.randint(3, 8)
    if r.random() < 0.6:  # star shaped
        a = sorted(r.uniform(0, 2 * math.pi) for _ in range(k))
        poly = np.array([(nx * (0.5 + r.uniform(0.2, 0.9) * math.cos(x)), ny * (0.5 + r.uniform(0.2, 0.9) * math.sin(x))) for x in a])
    else:  # anything, perhaps crossing itself
        poly = np.array([(coord(r, nx, True), coord(r, ny, True)) for _ in range(k)])
    xlen = r.choice([1, nx, nx])
    num = r.randint(0, 5)
    want = {}
    for i, p in enumerate(pts):
        v = in_polygon(p[0], p[1], [tuple(q) for q in poly])
        if v is not False:
            want[(num, *divmod(i, xlen))] = v
    ref = None
    for sch in [None] + schedules(plan):
        a, b = pts.copy(), poly.copy()
        got = once(c, plan, sch, lambda: vec.points_in_polygon(a, b, xlen, num))
        check(np.array_equal(a, pts) and np.array_equal(b, poly), 'input-changed', 'points_in_polygon changed its arguments')
        compare(got, want, 'points_in_polygon')
        rows = [tuple(x) for x in got]
        check(rows == sorted(rows), 'order', 'points_in_polygon: rows are not in order of points')
        check(ref is None or np.array_equal(ref, got), 'schedule', 'points_in_polygon depends on the schedule')
        ref = got if ref is None else ref
    c.probe('rows', len(ref))


def triangles(c, plan, vec, r):
    nx, ny = r.randint(1, 9), r.randint(1, 7)
    n = plan['n']
    uni = plan['kind'] == 'unified'
    t = gen_tris(r, n, nx, ny, plan['fine'], uni)
    if plan['fine']:
        t = np.array([x for x in t if abs(area2(x)) > 1e-3]).reshape((-1,) + t.shape[1:])
    want = tri_points(nx, ny, [[(p[0], p[1]) for p in x] for x in t])
    dx, dy = r.choice([(1.0, 1.0), (10.0, 0.25), (3.0, 70.0)])
    perm = r.sample(range(3), 3)
    sref = None
    if not uni:
        real = t.copy()
        real += 0.5
        real[..., 0] *= dx
        real[..., 1] *= dy
        sref = vec.points_in_triangles_aligned_optimised_serial(nx, ny, dx, dy, real.copy())
    else:
        real = np.empty_like(t)
        for k in range(3):
            real[..., perm[k]] = t[..., k]
    ref = None
    for sch, nb in zip([None] + schedules(plan), [1] + plan['n_batches']):
        a = real.copy()
        if uni:
            got = once(c, plan, sch, lambda: vec.points_in_triangles_aligned_unified(nx, ny, perm[0], perm[1], perm[2], a, nb) if nb else vec.points_in_triangles_aligned_unified(nx, ny, perm[0], perm[1], perm[2], a))
            rows, z = got
            check(len(rows) == len(z), 'z', f'{len(rows)} rows but {len(z)} z values')
        else:
            rows = once(c, plan, sch, lambda: vec.points_in_triangles_aligned_optimised(nx, ny, dx, dy, a, nb) if nb else vec.points_in_triangles_aligned_optimised(nx, ny, dx, dy, a))
            got = (rows, np.zeros(len(rows)))
            z = None
            if plan['fine']:
                check(np.array_equal(rows, sref), 'serial', lambda: f'points_in_triangles_aligned_optimised gives {len(rows)} rows, the serial version {len(sref)}, or others')
        check(np.array_equal(a, real), 'input-changed', f'{plan["kind"]}: the triangles passed in were changed')
        if plan['fine']:
            compare(rows, want, plan['kind'])
        num = [int(x[0]) for x in rows]
        check(num == sorted(num), 'order', f'{plan["kind"]}: rows are not in order of triangles')
        if z is not None and plan['fine']:
            for (k, yi, xi), v in zip(rows, z):
                p, q, s = t[k]
                d = area2(t[k])
                if abs(d) < 0.05:
                    continue
                u = ((xi - p[0]) * (s[1] - p[1]) - (s[0] - p[0]) * (yi - p[1])) / d
                w = ((q[0] - p[0]) * (yi - p[1]) - (xi - p[0]) * (q[1] - p[1])) / d
                e = p[2] + u * (q[2] - p[2]) + w * (s[2] - p[2])
                check(abs(e - v) < 1e-6 * max(1.0, 1.0 / abs(d)) * 10.0, 'z', lambda: f'z of triangle {k} at ({xi}, {yi}) is {v}, not {e}')
        if ref is not None:
            check(np.array_equal(ref[0], got[0]) and np.array_equal(ref[1], got[1]), 'schedule', lambda: f'{plan["kind"]}: {len(got[0])} rows with {nb} batches and {sch and sch.n_threads} threads, {len(ref[0])} (or others) in turn')
        ref = got if ref is None else ref
    c.probe('rows', len(ref[0]))


def surfaces(c, plan, r):
    """Representing a surface by grid faces, and finding the triangles of a regular mesh at points."""
    import resqpy.grid as grr
    import resqpy.grid_surface as rqgs
    import resqpy.model as rq
    import resqpy.surface as rqs
    from resqpy.crs import Crs
    m = rq.new_model('s.epc')
    crs = Crs(m)
    crs.create_xml()
    if plan['kind'] == 'trimesh':
        nj, ni = r.randint(2, 6), r.randint(2, 6)
        tm = rqs.TriMesh(m, nj = nj, ni = ni, t_side = r.choice([1.0, 10.0]), origin = r.choice([None, (3.0, -4.0, 0.0)]), z_values = np.array([[r.uniform(0, 9) for _ in range(ni)] for _ in range(nj)]), crs_uuid = crs.uuid, title = 't')
        tris = np.array([[[coord(r, ni, True) * tm.t_side, coord(r, nj, True) * tm.t_side] for _ in range(3)] for _ in range(max(1, plan['n']))])
        ref = None
        for sch in [None] + schedules(plan):
            got = once(c, plan, sch, lambda: tm.tri_nodes_in_triangles(tris.copy()))
            check(ref is None or np.array_equal(ref, got), 'schedule', 'tri_nodes_in_triangles depends on the schedule')
            ref = got if ref is None else ref
        nodes = tm.full_array_ref()
        want = {}
        for k, t in enumerate(tris):
            for j in range(nj):
                for i in range(ni):
                    v = in_polygon(nodes[j, i, 0], nodes[j, i, 1], [tuple(q) for q in t])
                    if v is not False:
                        want[(k, j, i)] = v
        compare(ref, want, 'tri_nodes_in_triangles')
        c.probe('rows', len(ref))
        return
    nk, nj, ni = r.randint(2, 5), r.randint(2, 6), r.randint(2, 6)
    dx, dy, dz = 10.0, 12.0, 5.0
    g = grr.RegularGrid(m, crs_uuid = crs.uuid, extent_kji = (nk, nj, ni), dxyz = (dx, dy, dz), origin = (0.0, 0.0, 0.0), set_points_cached = True)
    g.create_xml()
    n = r.randint(4, 12)
    pts = np.array([(r.uniform(-0.2, 1.2) * dx * ni, r.uniform(-0.2, 1.2) * dy * nj, r.uniform(0.2, 0.8) * dz * nk) for _ in range(n)])
    ps = rqs.PointSet(m, points_array = pts, crs_uuid = crs.uuid, title = 'p')
    s = rqs.Surface(m, crs_uuid = crs.uuid, title = 's')
    s.set_from_point_set(ps)
    s.write_hdf5()
    s.create_xml()
    props = ['triangle', 'depth', 'offset']
    fn = rqgs.find_faces_to_represent_surface_regular_optimised if plan['kind'] == 'faces' else rqgs.find_faces_to_represent_surface_regular_dense_optimised
    ref = None
    for sch, nb in zip([None] + schedules(plan), [1] + plan['n_batches']):
        kw = dict(n_batches = nb) if nb and plan['kind'] == 'faces' else {}
        s2 = rqs.Surface(m, uuid = s.uuid)
        a = once(c, plan, sch, lambda: fn(g, s2, 'f', feature_type = 'fault', return_properties = props if plan['kind'] == 'faces' else ['triangle'], **kw))
        gcs, d = a
        got = None if gcs is None else (gcs.count, np.array(gcs.cell_index_pairs), np.array(gcs.face_index_pairs), {k: np.array(v) for k, v in d.items()})
        check(ref is None or zoo.same(ref[0], got), 'schedule', lambda: f'faces representing a surface differ with {nb} batches and {sch.n_threads} threads from those found in turn')
        ref = (got,) if ref is None else ref
    if ref[0] is None:
        c.probe('no-faces')
        return
    c.probe('rows', ref[0][0])
    if plan['kind'] != 'faces':
        return
    # each face found is crossed by the line between the centres of the cells it separates, by the triangle reported
    tri, p = s.triangles_and_points()
    cells, t = ref[0][1], ref[0][3]['triangle']
    nat = lambda q: np.array([(q % ni + 0.5) * dx, (q // ni % nj + 0.5) * dy, (q // (ni * nj) + 0.5) * dz])  # noqa
    seen = set()
    for (q1, q2), k in zip(cells, t):
        a, b = nat(q1), nat(q2)
        v = [p[x] for x in tri[k]]
        check(near_crossing(a, b, v), 'faces', lambda: f'face between cells {q1} and {q2} is not crossed by triangle {k}')
        seen.add(frozenset((int(q1), int(q2))))
    for q in range(nk * nj * ni):
        for q2, ok in ((q + 1, q % ni < ni - 1), (q + ni, q // ni % nj < nj - 1), (q + ni * nj, q // (ni * nj) < nk - 1)):
            if ok and frozenset((q, q2)) not in seen:
                a, b = nat(q), nat(q2)
                check(not any(strictly_crossing(a, b, [p[x] for x in k]) for k in tri), 'faces', lambda: f'face between cells {q} and {q2} is crossed by the surface but not found')


def crossing(a, b, v, tol):
    n = np.cross(v[1] - v[0], v[2] - v[0])
    da, db = np.dot(a - v[0], n), np.dot(b - v[0], n)
    ln = np.linalg.norm(n)
    if ln < 1e-9 or abs(da - db) < 1e-9 * ln:
        return None
    f = da / (da - db)
    if not -tol <= f <= 1.0 + tol:
        return False
    x = a + f * (b - a)
    m = int(np.argmax(np.abs(n)))
    ax = [i for i in range(3) if i != m]
    q = [(w[ax[0]], w[ax[1]]) for w in v]
    d = area2(q)
    y = (x[ax[0]], x[ax[1]])
    bc = [area2([y, q[1], q[2]]) / d, area2([q[0], y, q[2]]) / d, area2([q[0], q[1], y]) / d]
    return min(bc) >= -tol


def near_crossing(a, b, v):
    return crossing(a, b, v, 1e-6) is not False


def strictly_crossing(a, b, v):
    return crossing(a, b, v, -1e-6) is True


class P(SaveProp):
    id = 'C12'
    quick_runs = 2500
    thorough_runs = 25000
    rule = ('one evaluation is one seeded set of points and polygons or triangles, or a surface and a grid, put through a threaded function of resqpy in turn and then under several seeded divisions into batches and threads with seeded interleavings of those at '
            'bytecodes, compared with each other, with the serial variant and with brute force; distinct by hash of the event log (which has the interleavings)')
    state_measure = 'distinct interleavings (sequences of thread switches)'
    assumptions = ['iterations interleave at Python bytecodes; effects below that (compilation by numba, word tearing, memory order) are not simulated',
                   'a prange loop means what numba says: contiguous chunks, assigned variables private, augmented assignments reductions']
    real = ['resqpy.olio.vector_utilities, grid_surface and surface code (as Python, not compiled)']
    stub = ['numba compiler and thread team (simulated threads)']

    def setup(self):
        SaveProp.setup(self)
        if len(sys.argv) > 4 and sys.argv[4].isdigit():  # all threads of a worker take turns: on one processor that is many times faster
            cpus = sorted(os.sched_getaffinity(0))
            os.sched_setaffinity(0, {cpus[int(sys.argv[4]) % len(cpus)]})

    def generate(self, rng, index, tier):
        k = rng.choice([1, 2, 3])
        scheds = []
        for _ in range(k):
            top = rng.choice([3, 20, 100, 600])
            scheds.append(dict(threads = rng.choice([2, 2, 3, 4, 8, 16]), sched = [[int(rng.random()**2 * top), rng.randrange(16)] for _ in range(rng.choice([5, 40, 150, 400]))]))
        return dict(kind = rng.choice(['polygon', 'polygon', 'aligned', 'aligned', 'unified', 'unified', 'faces', 'dense', 'trimesh']), q = rng.randrange(1 << 40), schedules = scheds,
                    n_batches = [rng.choice([None, 1, 2, 3, 5, 7, 20, 33]) for _ in range(k)], n = rng.choice([0, 1, 2, 3, 4, 5, 7, 12, 21, 25, 41]), fine = rng.random() < 0.8, three = rng.random() < 0.5)

    def shrink_lists(self, plan):
        return [['schedules', i, 'sched'] for i in range(len(plan['schedules']))]

    def simplify(self, plan):
        for n in (1, 2, 3, 5, 7):
            if plan['n'] > n:
                yield dict(plan, n = n)
        if len(plan['schedules']) > 1:
            for i in range(len(plan['schedules'])):
                yield dict(plan, schedules = [plan['schedules'][i]], n_batches = [plan['n_batches'][i]])

    def execute(self, plan, ctx):
        ctx.run_ok(run, plan)


PROP = P()

"""Scenario generators with plates and quads."""
import math
import gen
from gen import lu, sg, mk_analyze, DOFS

GP = 1 / 3 ** .5
G3 = [-(.6 ** .5), 0., .6 ** .5]


def dot(a, b): return sum(x * y for x, y in zip(a, b))
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def unit(a): n = math.sqrt(dot(a, a)); return [x / n for x in a]


def plane(r):
    """Origin and two unit vectors of a plane: often a coordinate plane"""
    o = r.choice([[0., 0., 0.], [r.uniform(-10, 10) for _ in range(3)]])
    if r.random() < .45:
        I = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
        a, b = r.sample(range(3), 2)
        ex, ey = [v * r.choice([1., -1.]) for v in I[a]], [v * r.choice([1., -1.]) for v in I[b]]
        return o, [x + 0. for x in ex], [x + 0. for x in ey]
    ex = unit([r.gauss(0, 1) for _ in range(3)])
    n = unit(cross(ex, [r.gauss(0, 1) for _ in range(3)]))
    return o, ex, cross(n, ex)


def at(pl, x, y): return [pl[0][d] + x * pl[1][d] + y * pl[2][d] for d in range(3)]


def convex(p, lo=.25):
    """Corner angles of a quadrilateral well inside (0, pi), counter-clockwise, sides of similar length"""
    n = len(p)
    for q in range(n):
        a, b, c = p[q - 1], p[q], p[(q + 1) % n]
        u, v = (a[0] - b[0], a[1] - b[1]), (c[0] - b[0], c[1] - b[1])
        s = (v[0] * u[1] - v[1] * u[0]) / (math.hypot(*u) * math.hypot(*v))
        if s < lo: return False
    L = [math.dist(p[q], p[(q + 1) % n]) for q in range(n)]
    return max(L) < 6 * min(L)


def shape(r, kind):
    """Corners of one element in its plane"""
    a, b = lu(r, .5, 6.), 0.
    b = a * lu(r, .25, 4.)
    base = [[0., 0.], [a, 0.], [a, b], [0., b]]
    if kind == 'rect': return base
    while True:
        if kind == 'parallel':
            s = r.uniform(-.8, .8)
            p = [[0., 0.], [a, 0.], [a + s * b, b], [s * b, b]]
        else:
            p = [[x + r.uniform(-.3, .3) * a, y + r.uniform(-.3, .3) * b] for x, y in base]
        if convex(p): return p


def turned(r, names, flip=False, k=None):
    k = r.randrange(4) if k is None else k
    n = names[k:] + names[:k]
    return [n[0], n[3], n[2], n[1]] if flip else n


def add_el(f, kind, name, c, t, mat, kx=1., ky=1.):
    f.add(op='add_' + kind, name=name, i=c[0], j=c[1], m=c[2], n=c[3], t=t, mat=mat, kx=kx, ky=ky)


def points(r, f, kind, c, gauss, n=2):
    """Query points of an element with corners c: Gauss points first if wanted"""
    a, b = math.dist(f.nodes[c[0]], f.nodes[c[1]]), math.dist(f.nodes[c[0]], f.nodes[c[3]])
    nat = []
    if gauss: nat = [[-GP, -GP], [GP, -GP], [GP, GP], [-GP, GP]] if kind == 'quad' else [[x, y] for y in G3 for x in G3]
    nat = nat + r.sample([[-1., -1.], [1., -1.], [1., 1.], [-1., 1.], [0., 0.]], r.randint(1, 3)) + [[r.uniform(-1, 1), r.uniform(-1, 1)] for _ in range(n)]
    return nat if kind == 'quad' else [[a * (1 + x) / 2, b * (1 + y) / 2] for x, y in nat]


def disp_at(fd, p, gam):
    v = [p[d] - fd['o'][d] for d in range(3)]
    x, y = dot(v, fd['ex']), dot(v, fd['ey'])
    w = fd['w']; n = cross(fd['ex'], fd['ey'])
    u1 = fd['u'][0] + fd['u'][1] * x + fd['u'][2] * y
    v1 = fd['v'][0] + fd['v'][1] * x + fd['v'][2] * y
    w1 = w[0] + w[1] * x + w[2] * y + w[3] * x * x / 2 + w[4] * x * y + w[5] * y * y / 2 + w[6] * x ** 3 / 6 + w[7] * y ** 3 / 6 + gam[0] * x + gam[1] * y
    wx = w[1] + w[3] * x + w[4] * y + w[6] * x * x / 2
    wy = w[2] + w[4] * x + w[5] * y + w[7] * y * y / 2
    return [u1 * fd['ex'][d] + v1 * fd['ey'][d] + w1 * n[d] for d in range(3)] + [wy * fd['ex'][d] - wx * fd['ey'][d] + fd['rz'] * n[d] for d in range(3)]


def field(r, pl, size, kinds):
    """A random field; kinds: subset of rigid, membrane, bend, cubic"""
    k = 1e-2
    z = lambda s: r.uniform(-1, 1) * s
    fd = dict(o=pl[0], ex=pl[1], ey=pl[2], u=[0.] * 3, v=[0.] * 3, w=[0.] * 8, rz=0., shear=None, nodes=[], rel=1e-9)
    if 'rigid' in kinds:
        fd['u'][0], fd['v'][0] = z(k), z(k); fd['w'][:3] = [z(k), z(k / size), z(k / size)]
        fd['rz'] = z(k / size); fd['u'][2], fd['v'][1] = -fd['rz'], fd['rz']
    if 'membrane' in kinds:
        fd['u'][1] += z(k / size); fd['u'][2] += z(k / size); fd['v'][1] += z(k / size); fd['v'][2] += z(k / size)
    if 'bend' in kinds: fd['w'][3:6] = [z(k / size ** 2) for _ in range(3)]
    if 'cubic' in kinds: fd['w'][6:8] = [z(k / size ** 3) for _ in range(2)]
    return fd


def slopes(f, mat, t, fd):
    m = f.mats[mat]
    D = m['E'] * t ** 3 / 12 / (1 - m['nu'] ** 2)
    G = m['E'] / 2 / (1 + m['nu'])
    return [-D * c / (5 / 6 * G * t) for c in fd['w'][6:8]]


def prescribe(f, n, d):
    for q in range(6): f.settle(n, q, float(d[q]))


def solo(r, pid):
    """One element with all displacements prescribed."""
    f = gen.Frame(r)
    f.material()
    kind = r.choice(['plate', 'quad', 'quad'])
    mode = r.choice(['random', 'bend', 'membrane', 'pressure', 'pressure', 'rigid', 'field', 'cubic', 'cubic'] if pid == 'P17' else ['random', 'bend', 'membrane', 'membrane', 'cubic'])
    sh = 'rect' if kind == 'plate' or mode == 'cubic' else r.choice(['rect', 'parallel', 'free', 'free', 'free'])
    p = shape(r, sh)
    pl = plane(r)
    size = max(max(q) for q in p) - min(min(q) for q in p)
    t = size * lu(r, .01, .3)
    names = r.sample(['a', 'b', 'c', 'd', 'e1', 'e2'], 4)
    order = list(range(4)); r.shuffle(order)
    for q in order: f.node(names[q], at(pl, *p[q]))
    c = turned(r, names, r.random() < .4)
    kx, ky = (r.choice([1., .5, .35]), r.choice([1., .7, 1.5])) if r.random() < .35 and mode not in ('field',) else (1., 1.)
    name = r.choice(['E', 'P1', 'Q1'])
    add_el(f, kind, name, c, t, 'Mat0', kx, ky)
    f.combo('C1', {'D': 1.})
    fd = None
    U = 1e-2
    for n in names: f.support(n, [True] * 6)
    if mode in ('rigid', 'field', 'cubic'):
        fd = field(r, pl, size, {'rigid': ['rigid'], 'field': ['rigid', r.choice(['membrane', 'bend']), r.choice(['membrane', 'bend'])], 'cubic': ['rigid', 'bend', 'membrane', 'cubic']}[mode])
        fd['nodes'] = names
        gam = [0., 0.]
        if kind == 'quad': fd['shear'] = name; gam = slopes(f, 'Mat0', t, fd)
        if mode == 'cubic' and (kx, ky) != (1., 1.): fd['u'][1] = fd['v'][2] = 0.; fd['u'][2] = -fd['rz']; fd['v'][1] = fd['rz']
        for n in names: prescribe(f, n, disp_at(fd, f.nodes[n], gam))
    elif mode != 'pressure' or r.random() < .5:
        nrm = cross(pl[1], pl[2])
        for n in names:
            d = [r.uniform(-U, U) for _ in range(3)] + [r.uniform(-U, U) / size for _ in range(3)]
            if mode in ('bend', 'membrane'):
                loc = [dot(d[:3], pl[1]), dot(d[:3], pl[2]), dot(d[:3], nrm)]; rot = [dot(d[3:], pl[1]), dot(d[3:], pl[2]), dot(d[3:], nrm)]
                if mode == 'bend': loc[:2] = [0., 0.]; rot[2] = 0.
                else: loc[2] = 0.; rot[:2] = [0., 0.]
                d = [loc[0] * pl[1][q] + loc[1] * pl[2][q] + loc[2] * nrm[q] for q in range(3)] + [rot[0] * pl[1][q] + rot[1] * pl[2][q] + rot[2] * nrm[q] for q in range(3)]
            prescribe(f, n, d)
    if mode == 'pressure':
        for _ in range(r.randint(1, 3)): f.add(op='add_%s_surface_pressure' % kind, elem=name, p=sg(r, .01, 5.), case=r.choice(['D', 'L', 'Case 1']))
        f.combo('C2', {'D': 1.2, 'L': -.5}); f.combo('C3', {'L': 1.6, 'Case 1': 1., 'none': 2.})
    q = {('plates' if kind == 'plate' else 'quads'): {name: points(r, f, kind, c, pid == 'P20', 3)}}
    how = r.choice(['general', 'linear', 'pdelta'])
    ev = f.ev + [mk_analyze(how, sparse=r.random() < .5, stab=r.random() < .5, q=q)]
    ob = {'op': 'observe', 'combos': ['C1'], 'q': q}
    if fd: ob['field'] = fd
    return ev + [ob]


def grid(r, nx, ny, rect, pl, f, prefix='g'):
    """Nodes of a grid of elements in a plane; returns names[j][i]"""
    while True:
        xs, ys = [0.], [0.]
        for _ in range(nx): xs.append(xs[-1] + lu(r, .7, 2.))
        for _ in range(ny): ys.append(ys[-1] + lu(r, .7, 2.))
        P = [[[x, y] for x in xs] for y in ys]
        if not rect:
            d = r.choice([.1, .3, .4])
            P = [[[x + r.uniform(-d, d), y + r.uniform(-d, d)] for x in xs] for y in ys]
        if all(convex([P[j][i], P[j][i + 1], P[j + 1][i + 1], P[j + 1][i]]) for i in range(nx) for j in range(ny)): break
    nm = [['%s%d_%d' % (prefix, i, j) for i in range(nx + 1)] for j in range(ny + 1)]
    order = [(i, j) for j in range(ny + 1) for i in range(nx + 1)]
    if r.random() < .5: r.shuffle(order)
    for i, j in order: f.node(nm[j][i], at(pl, *P[j][i]))
    return nm, xs[-1], ys[-1]


def cells(nm): return [[nm[j][i], nm[j][i + 1], nm[j + 1][i + 1], nm[j + 1][i]] for j in range(len(nm) - 1) for i in range(len(nm[0]) - 1)]


def patch(r, pid):
    """A patch of elements with the boundary displaced by a field."""
    f = gen.Frame(r)
    f.material()
    pl = plane(r)
    nx, ny = r.choice([(2, 2), (2, 2), (3, 2), (2, 3), (3, 3)])
    what = r.choice(['quad', 'quad', 'plate', 'mix', 'ortho'])
    nm, W, H = grid(r, nx, ny, what != 'quad', pl, f)
    size = max(W, H)
    t = lu(r, .02, .4)
    kinds = {'mix': ['membrane', 'translate'], 'ortho': ['membrane', 'bend', 'translate']}.get(what, r.choice([['membrane', 'bend', 'translate'], ['bend'], ['membrane']]))
    fd = field(r, pl, size, kinds)
    if 'translate' in kinds: fd['u'][0], fd['v'][0] = r.uniform(-1e-2, 1e-2), r.uniform(-1e-2, 1e-2); fd['w'][:3] = [r.uniform(-1e-2, 1e-2) for _ in range(3)]
    kx, ky = (r.choice([.35, .6, 1.4]), r.choice([.5, 1., 1.2])) if what == 'ortho' else (1., 1.)
    k1 = r.choice(['plate', 'quad'])
    cs = cells(nm); r.shuffle(cs)
    q = {'plates': {}, 'quads': {}, 'el': True}
    for n, c in enumerate(cs):
        kind = {'quad': 'quad', 'plate': 'plate', 'ortho': k1, 'mix': r.choice(['plate', 'quad'])}[what]
        c = turned(r, c, k=r.choice([0, 2])) if what == 'ortho' else turned(r, c, r.random() < .3)
        name = '%s%d' % ('P' if kind == 'plate' else 'Q', n + 1)
        add_el(f, kind, name, c, t, 'Mat0', kx, ky)
        q[kind + 's'][name] = points(r, f, kind, c, False, 1)
    for j, row in enumerate(nm):
        for i, n in enumerate(row):
            if i in (0, nx) or j in (0, ny):
                f.support(n, [True] * 6); prescribe(f, n, disp_at(fd, f.nodes[n], [0., 0.]))
    fd['nodes'] = [n for row in nm for n in row]
    fd['rel'] = 1e-7
    ev = f.ev + [mk_analyze(r.choice(['general', 'linear']), sparse=r.random() < .5, stab=r.random() < .5, q={'el': True})]
    return ev + [{'op': 'observe', 'combos': None, 'q': q, 'field': fd}]


def shell(r, f, prefix, limit=(3, 3)):
    """A supported sheet, possibly folded, of plates and quads; returns its nodes by edge and its elements [(kind, name, corners)]"""
    pl = plane(r)
    nx, ny = r.randint(1, limit[0]), r.randint(1, limit[1])
    rect = r.random() < .5
    nm, W, H = grid(r, nx, ny, rect, pl, f, prefix)
    t = lu(r, .05, .4)
    cs = cells(nm)
    els = []
    nrm = cross(pl[1], pl[2])
    if r.random() < .5:       # a second sheet along the last row, at an angle
        ang = r.choice([math.pi / 2, r.uniform(.4, 2.2)])
        h = lu(r, .7, 2.)
        row = []
        for n in nm[-1]:
            p = f.nodes[n]
            row.append(n + 'f')
            f.node(n + 'f', [p[d] + h * (math.cos(ang) * pl[2][d] + math.sin(ang) * nrm[d]) for d in range(3)])
        cs += [[nm[-1][i], nm[-1][i + 1], row[i + 1], row[i]] for i in range(nx)] if rect else []
        if not rect:
            for n in row: f.ev = [e for e in f.ev if e.get('name') != n]; f.nodes.pop(n)
            row = None
    else: row = None
    for n, c in enumerate(cs):
        kind = r.choice(['plate', 'quad']) if rect else 'quad'
        c = turned(r, c, r.random() < .3)
        name = '%s%s%d' % (prefix, 'P' if kind == 'plate' else 'Q', n + 1)
        add_el(f, kind, name, c, t, r.choice(list(f.mats)), r.choice([1., 1., .4]), r.choice([1., 1., .7]))
        els.append((kind, name, c))
    return nm, row, els


def pressures(r, f, els, n):
    for _ in range(n):
        kind, name, c = r.choice(els)
        f.add(op='add_%s_surface_pressure' % kind, elem=name, p=sg(r, .01, 2.), case=f.case())


def mixed(r, pid):
    """Sheets of plates and quads with members, springs and supports."""
    f = gen.Frame(r)
    for _ in range(r.randint(1, 2)): f.material()
    nm, row, els = shell(r, f, 'g')
    edge = nm[0]
    every = list(f.nodes)
    if r.random() < .7:
        for n in edge: f.support(n, [True] * 6 if r.random() < .6 else [True, True, True, False, False, False])
        f.support(edge[0], [True] * 6)
    else:
        f.support(edge[0], [True] * 6); f.support(edge[-1], [True] * 3 + [False] * 3)
    for q in range(r.choice([0, 1, 1, 2])):       # members: free-standing, or along an edge (with nodes on their line)
        x = r.random()
        if x < .4:
            n = 'top%d' % q
            p = f.nodes[r.choice(every)]
            f.node(n, [p[d] + r.uniform(-4, 4) for d in range(3)])
            base = r.choice(every)
            if math.dist(f.nodes[n], f.nodes[base]) < .8: f.ev.pop(); f.nodes.pop(n); continue
            f.member('M%d' % (q + 1), *r.choice([(n, base), (base, n)]))
            if r.random() < .4: f.support(n, [True] * 6)
        else:
            e = r.choice([nm[-1], [rw[0] for rw in nm], [rw[-1] for rw in nm]])
            f.member('M%d' % (q + 1), *r.choice([(e[0], e[-1]), (e[-1], e[0])]))
    for n in r.sample(every, min(len(every), r.choice([0, 1, 2]))):
        f.support_spring(n, r.randrange(6), lu(r, 1., 300.))
    if r.random() < .4: f.settle(edge[0], r.randrange(6), sg(r, .001, .02))
    if r.random() < .3 and len(every) > 2:
        a, b = r.sample(every, 2); f.spring('S1', a, b, lu(r, 5., 200.))
    for _ in range(r.randint(1, 3)): f.node_load(r.choice(every))
    pressures(r, f, els, r.randint(1, 4))
    if f.members and r.random() < .6: f.dist_load()
    f.make_combos(r.randint(1, 2))
    ev = f.ev
    for _ in range(r.choice([1, 1, 2])):
        ev = ev + [mk_analyze(r.choice(['general', 'linear']), sparse=r.random() < .5, stab=r.random() < .5, q={'el': True})]
    return ev


def meshed(r, pid):
    """A generated mesh under load."""
    f = gen.Frame(r)
    f.material()
    kind = r.choice(['rect', 'rect', 'annulus', 'frustrum', 'cylinder', 'cylinder'])
    a = dict(thickness=lu(r, .05, .4), material_name='Mat0', kx_mod=r.choice([1., 1., .35]), ky_mod=r.choice([1., 1., .5]), origin=r.choice([[0., 0., 0.], [r.uniform(-5, 9) for _ in range(3)]]))
    el = 'Q'
    if kind == 'rect':
        w, h = lu(r, 1., 6.), lu(r, 1., 6.)
        a.update(width=w, height=h, mesh_size=max(w, h) / r.choice([2, 3, 4]), plane=r.choice(['XY', 'YZ', 'XZ']), element_type=r.choice(['Quad', 'Rect']),
                 x_control=r.choice([[], [w * r.uniform(.2, .8)]]), y_control=[])
        if a['element_type'] == 'Rect': el = 'R'
    elif kind == 'cylinder':
        rad, n = lu(r, .5, 4.), r.randint(4, 8)
        s = 2 * math.pi * rad / n
        a.update(radius=rad, height=s * r.uniform(.6, 2.4), num_elements=n, mesh_size=s, axis=r.choice(['X', 'Y', 'Z']), element_type=r.choice(['Quad', 'Rect']))
        if a['element_type'] == 'Rect': el = 'R'
    else:
        r1 = lu(r, .5, 3.); n = r.uniform(3.05, 8.5)
        s = 2 * math.pi * r1 / n
        r2 = r1 + s * r.uniform(.6, 2.2)
        a.update(mesh_size=s, axis=r.choice(['X', 'Y', 'Z']))
        if kind == 'annulus': a.update(outer_radius=r2, inner_radius=r1)
        else: a.update(large_radius=r2, small_radius=r1, height=lu(r, .5, 3.))
    f.add(op='add_mesh', kind=kind, name='mesh', args=a, omit=[])
    if kind != 'cylinder' or r.random() < .3: f.add(op='generate', mesh='mesh')
    for n in ('N1', 'N2', 'N3'): f.support(n, [True] * 6)
    for _ in range(r.randint(1, 2)): f.add(op='add_node_load', node='N%d' % r.randint(2, 6), dir=r.choice(gen.NDIRS), P=sg(r, .5, 9.), case='D')
    for _ in range(r.randint(1, 3)): f.add(op='add_plate_surface_pressure' if el == 'R' else 'add_quad_surface_pressure', elem=el + str(r.randint(1, 3)), p=sg(r, .01, 2.), case=r.choice(['D', 'L']))
    f.combo('C1', {'D': 1., 'L': r.choice([1.6, -.5])})
    if r.random() < .4: f.combo('C2', {'L': 1.2})
    return f.ev + [mk_analyze(r.choice(['general', 'linear']), sparse=r.random() < .7, stab=r.random() < .5, q={'el': True})]


ALL = dict(solo=solo, patch=patch, mixed=mixed, meshed=meshed)

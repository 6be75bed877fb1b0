"""A rough floating-point frame solver, used only to steer the scenario generators away from unstable or badly
conditioned models and from loads near buckling.  It decides nothing: verdicts come from the specification."""
import numpy as np


def axes(pi, pj, aux=None):
    pi, pj = np.array(pi, float), np.array(pj, float)
    x = (pj - pi) / np.linalg.norm(pj - pi)
    if aux is not None:
        y = np.cross(np.array(aux, float) - pi, x)
        if np.linalg.norm(y) < 1e-3: return None
        y /= np.linalg.norm(y)
        return np.array([x, y, np.cross(x, y)])
    if abs(x[0]) < 1e-12 and abs(x[2]) < 1e-12:
        z = np.array([0, 0, 1.]); return np.array([x, np.cross(z, x), z])
    z = np.cross(x, [0, 1., 0]); z /= np.linalg.norm(z)
    return np.array([x, np.cross(z, x), z])


def kloc(E, G, A, Iy, Iz, J, L):
    k = np.zeros((12, 12))

    def put(d, m):
        k[np.ix_(d, d)] += m
    b = np.array([[1, -1], [-1, 1.]])
    put([0, 6], E * A / L * b); put([3, 9], G * J / L * b)
    h = np.array([[12 / L**3, 6 / L**2, -12 / L**3, 6 / L**2], [6 / L**2, 4 / L, -6 / L**2, 2 / L], [-12 / L**3, -6 / L**2, 12 / L**3, -6 / L**2], [6 / L**2, 2 / L, -6 / L**2, 4 / L]])
    s = np.diag([1, -1, 1, -1.])
    put([1, 5, 7, 11], E * Iz * h); put([2, 4, 8, 10], E * Iy * (s @ h @ s))
    return k


def kgeo(P, A, I, L):
    k = np.zeros((12, 12))

    def put(d, m):
        k[np.ix_(d, d)] += m
    b = np.array([[1, -1], [-1, 1.]])
    put([3, 9], P * I / A / L * b)
    h = P * np.array([[1.2 / L, .1, -1.2 / L, .1], [.1, 2 * L / 15, -.1, -L / 30], [-1.2 / L, -.1, 1.2 / L, -.1], [.1, -L / 30, -.1, 2 * L / 15]])
    s = np.diag([1, -1, 1, -1.])
    put([1, 5, 7, 11], h); put([2, 4, 8, 10], s @ h @ s)
    return k


def cond(k, rel):
    r = [i for i in range(12) if rel[i]]
    f = [i for i in range(12) if not rel[i]]
    if not r: return k
    k22 = k[np.ix_(r, r)]
    sc = np.diag(1 / np.sqrt(np.maximum(np.diag(k22), 1e-30)))
    if np.linalg.cond(sc @ k22 @ sc) > 1e8: return None
    o = np.zeros((12, 12))
    o[np.ix_(f, f)] = k[np.ix_(f, f)] - k[np.ix_(f, r)] @ np.linalg.solve(k22, k[np.ix_(r, f)])
    return o


def chain(nodes, i, j):
    a, b = np.array(nodes[i]), np.array(nodes[j]); L = np.linalg.norm(b - a); x = (b - a) / L
    c = []
    for n, p in nodes.items():
        if n in (i, j): continue
        v = np.array(p) - a; t = v @ x
        if np.linalg.norm(v - t * x) < 1e-6 * L and 1e-6 * L < t < L * (1 - 1e-6): c.append((t, n))
    return [i] + [n for t, n in sorted(c)] + [j]


def assemble(fr, geo=None, inactive=()):
    """fr: the description kept by gen.Frame.  Returns K (unsupported) or None."""
    nodes = {n: v for n, v in fr.nodes.items()}
    ix = {n: q for q, n in enumerate(nodes)}
    N = 6 * len(nodes)
    K = np.zeros((N, N))
    for k, m in fr.members.items():
        if k in inactive: continue
        mt = fr.mats[m['mat']]
        ch = chain(nodes, m['i'], m['j'])
        ax = axes(nodes[m['i']], nodes[m['j']], fr.aux[m['aux']] if m['aux'] else None)
        if ax is None: return None
        T = np.kron(np.eye(4), ax)
        for s in range(len(ch) - 1):
            L = np.linalg.norm(np.array(nodes[ch[s + 1]]) - np.array(nodes[ch[s]]))
            kl = kloc(mt['E'], mt['G'], m['A'], m['Iy'], m['Iz'], m['J'], L)
            if geo is not None: kl = kl + kgeo(geo.get((k, s), 0.), m['A'], m['Iy'] + m['Iz'], L)
            rel = [False] * 12
            if s == 0: rel[:6] = m['rel'][:6]
            if s == len(ch) - 2: rel[6:] = m['rel'][6:]
            kc = cond(kl, rel)
            if kc is None: return None
            d = [6 * ix[ch[s]] + q for q in range(6)] + [6 * ix[ch[s + 1]] + q for q in range(6)]
            K[np.ix_(d, d)] += T.T @ kc @ T
    for k, s in fr.springs.items():
        if k in inactive: continue
        v = np.array(nodes[s['j']]) - np.array(nodes[s['i']]); v = v / np.linalg.norm(v)
        g = np.concatenate([-v, v]) * np.sqrt(s['ks'])
        d = [6 * ix[s['i']] + q for q in range(3)] + [6 * ix[s['j']] + q for q in range(3)]
        K[np.ix_(d, d)] += np.outer(g, g)
    for (n, d), (ks, dr) in fr.sspr.items():
        if (n, d) in inactive: continue
        K[6 * ix[n] + d, 6 * ix[n] + d] += ks
    return K


def free(fr):
    f, q = [], 0
    for n in fr.nodes:
        for d in range(6):
            if not fr.sup.get(n, [False] * 6)[d] and (n, d) not in fr.disp: f.append(q)
            q += 1
    return f


def well_conditioned(fr, limit=1e7, inactive=()):
    K = assemble(fr, inactive=inactive)
    if K is None: return False
    f = free(fr)
    if not f: return True
    full = np.max(np.diag(K))
    # a prescribed displacement where nothing resists it counts as unstable in PyNite
    for q, n in enumerate(fr.nodes):
        for d in range(6):
            if (n, d) in fr.disp and not fr.sup.get(n, [False] * 6)[d] and K[6 * q + d, 6 * q + d] <= 1e-9 * full: return False
    K = K[np.ix_(f, f)]
    dg = np.diag(K)
    if np.any(dg <= 1e-9 * full): return False
    if np.any(dg <= 1e-12 * np.max(dg)): return False
    s = np.diag(1 / np.sqrt(dg))
    return np.linalg.cond(s @ K @ s) < limit and np.max(dg) / np.min(dg) < 1e9


def on_segment(p, a, b, tol):
    a, b, p = np.array(a, float), np.array(b, float), np.array(p, float)
    L = np.linalg.norm(b - a); x = (b - a) / L; v = p - a; t = v @ x
    return np.linalg.norm(v - t * x) < tol * L and -tol * L < t < L * (1 + tol)


# ------------------------------------------------------------------------------------------------ loads and one-way paths

NDIRS = ['FX', 'FY', 'FZ', 'MX', 'MY', 'MZ']
LDIRS = ['Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz']
GP, GW = np.polynomial.legendre.leggauss(6)


def _shape(x, L):
    """12x6: end displacements -> (u, v, w, rx, ry, rz) at x"""
    t = x / L
    h = np.array([1 - 3 * t**2 + 2 * t**3, L * (t - 2 * t**2 + t**3), 3 * t**2 - 2 * t**3, L * (t**3 - t**2)])
    d = np.array([6 * (t**2 - t) / L, 1 - 4 * t + 3 * t**2, 6 * (t - t**2) / L, 3 * t**2 - 2 * t])
    N = np.zeros((12, 6))
    N[0, 0] = N[3, 3] = 1 - t; N[6, 0] = N[9, 3] = t
    N[[1, 5, 7, 11], 1] = h; N[[1, 5, 7, 11], 5] = d
    s = np.array([1, -1, 1, -1.])
    N[[2, 4, 8, 10], 2] = h * s; N[[2, 4, 8, 10], 4] = -d * s
    return N


def segments(fr):
    """(member, segment index, start node, end node, local axes, local stiffness, release flags, start, length)"""
    out = []
    for k, m in fr.members.items():
        ch = chain(fr.nodes, m['i'], m['j'])
        ax = axes(fr.nodes[m['i']], fr.nodes[m['j']], fr.aux[m['aux']] if m['aux'] else None)
        mt = fr.mats[m['mat']]; x0 = 0.0
        for s in range(len(ch) - 1):
            L = float(np.linalg.norm(np.array(fr.nodes[ch[s + 1]]) - np.array(fr.nodes[ch[s]])))
            rel = [False] * 12
            if s == 0: rel[:6] = m['rel'][:6]
            if s == len(ch) - 2: rel[6:] = m['rel'][6:]
            out.append((k, s, ch[s], ch[s + 1], ax, kloc(mt['E'], mt['G'], m['A'], m['Iy'], m['Iz'], m['J'], L), rel, x0, L))
            x0 += L
    return out


def member_loads(fr, events):
    """{member: [(x or (x1, x2), local 6-vector or (w1, w2) 3-vectors, case)]} and {node: [(6-vector, case)]}"""
    nod, mem = {}, {k: [] for k in fr.members}
    for e in events:
        if e['op'] == 'delete_loads':
            nod, mem = {}, {k: [] for k in fr.members}
        elif e['op'] == 'add_node_load':
            v = np.zeros(6); v[NDIRS.index(e['dir'])] = e['P']; nod.setdefault(e['node'], []).append((v, e['case']))
        elif e['op'] in ('add_member_pt_load', 'add_member_dist_load') and e['member'] in fr.members:
            m = fr.members[e['member']]
            ax = axes(fr.nodes[m['i']], fr.nodes[m['j']], fr.aux[m['aux']] if m['aux'] else None)
            v = np.zeros(6)
            if e['dir'] in LDIRS: v[LDIRS.index(e['dir'])] = 1
            else:
                g = np.zeros(6); g[NDIRS.index(e['dir'])] = 1
                v = np.concatenate([ax @ g[:3], ax @ g[3:]])
            if e['op'] == 'add_member_pt_load': mem[e['member']].append(('pt', e['x'], v * e['P'], e['case']))
            else:
                L = float(np.linalg.norm(np.array(fr.nodes[m['i']]) - np.array(fr.nodes[m['j']])))
                x1 = 0. if e['x1'] is None else e['x1']; x2 = L if e['x2'] is None else e['x2']
                mem[e['member']].append(('dist', x1, x2, v * e['w1'], v * e['w2'], e['case']))
        elif e['op'] == 'add_member_self_weight':
            for k, m in fr.members.items():
                ax = axes(fr.nodes[m['i']], fr.nodes[m['j']], fr.aux[m['aux']] if m['aux'] else None)
                g = np.zeros(3); g[['FX', 'FY', 'FZ'].index(e['dir'])] = 1
                L = float(np.linalg.norm(np.array(fr.nodes[m['i']]) - np.array(fr.nodes[m['j']])))
                w = np.concatenate([ax @ g, np.zeros(3)]) * e['factor'] * fr.mats[m['mat']]['rho'] * m['A']
                mem[k].append(('dist', 0., L, w, w, e['case']))
    return nod, mem


def solve_frame(fr, factors, geo=None, inactive=(), events=None):
    """(D, axial force of every segment as member end force at its start (compression +) and mean tension) or None when ill-conditioned"""
    segs = segments(fr)
    ix = {n: q for q, n in enumerate(fr.nodes)}
    N = 6 * len(ix)
    K = assemble(fr, geo=geo, inactive=inactive)
    if K is None: return None
    nod, mem = member_loads(fr, events if events is not None else fr.ev)
    P = np.zeros(N)
    for n, l in nod.items():
        for v, c in l: P[6 * ix[n]:6 * ix[n] + 6] += factors.get(c, 0.) * v
    fes = {}
    for k, s, a, b, ax, kl, rel, x0, L in segs:
        f = np.zeros(12)
        for l in mem[k]:
            q = factors.get(l[-1], 0.)
            if l[0] == 'pt':
                last = x0 + L > 0 and all(not (y[0] == k and y[1] > s) for y in segs)
                if x0 <= l[1] < x0 + L or (last and l[1] >= x0): f += q * _shape(min(l[1] - x0, L), L) @ l[2]
            else:
                lo, hi = max(l[1], x0), min(l[2], x0 + L)
                if hi > lo:
                    for g, w in zip(GP, GW):
                        x = (lo + hi) / 2 + g * (hi - lo) / 2
                        f += q * w * (hi - lo) / 2 * _shape(x - x0, L) @ (l[3] + (l[4] - l[3]) * (x - l[1]) / (l[2] - l[1]))
        fe = -f
        r = [i for i in range(12) if rel[i]]; o = [i for i in range(12) if not rel[i]]
        fec = np.zeros(12)
        fec[o] = fe[o] - (kl[np.ix_(o, r)] @ np.linalg.solve(kl[np.ix_(r, r)], fe[r]) if r else 0)
        fes[(k, s)] = fec
        T = np.kron(np.eye(4), ax)
        d = [6 * ix[a] + q for q in range(6)] + [6 * ix[b] + q for q in range(6)]
        P[d] -= T.T @ fec
    fixed = np.zeros(N); fr_ = free(fr)
    for (n, d), v in fr.disp.items(): fixed[6 * ix[n] + d] = v
    D = fixed.copy()
    if fr_:
        Kf = K[np.ix_(fr_, fr_)]
        dg = np.abs(np.diag(Kf))
        if np.any(dg <= 1e-9 * max(np.max(np.diag(K)), 1e-30)): return None
        sc = 1 / np.sqrt(dg)
        if np.linalg.cond(sc[:, None] * Kf * sc) > 1e7: return None
        D[fr_] = np.linalg.solve(Kf, P[fr_] - (K @ fixed)[fr_])
    ax_, mean = {}, {}
    for k, s, a, b, ax, kl, rel, x0, L in segs:
        T = np.kron(np.eye(4), ax)
        d = [6 * ix[a] + q for q in range(6)] + [6 * ix[b] + q for q in range(6)]
        dl = T @ D[d]
        kc = cond(kl, rel)
        f = kc @ dl + fes[(k, s)]
        ax_[(k, s)] = (f[0], -f[6])
        mean[(k, s)] = kl[0, 0] * (dl[6] - dl[0])
    return D, ax_, mean


def path(fr, factors, pdelta=False, events=None, limit=30):
    """The activation iteration.  ('settled' | 'unstable' | 'loops' | 'edge', steps, inactive)"""
    ix = {n: q for q, n in enumerate(fr.nodes)}
    off, steps, phase, geo = set(), 0, 1, None
    while True:
        steps += 1
        if steps > limit: return 'loops', steps, off
        S = solve_frame(fr, factors, geo, off, events)
        if S is None: return 'unstable', steps, off
        D, ax, mean = S
        big = max(1e-30, max(abs(x) for v in ax.values() for x in v)); dbig = max(1e-30, np.max(np.abs(D)))
        new = set(off)
        for k, m in fr.members.items():
            if k in off or not (m['to'] or m['co']): continue
            vals = [x for (q, s), v in ax.items() if q == k for x in v]
            hi, lo = max(vals), min(vals)
            if m['to']:
                if abs(hi) < 1e-5 * big: return 'edge', steps, off
                if hi > 0: new.add(k)
            elif m['co']:
                if abs(lo) < 1e-5 * big: return 'edge', steps, off
                if lo < 0: new.add(k)
        for k, s in fr.springs.items():
            if k in off or not (s['to'] or s['co']): continue
            v = np.array(fr.nodes[s['j']]) - np.array(fr.nodes[s['i']]); v = v / np.linalg.norm(v)
            e = v @ (D[6 * ix[s['j']]:6 * ix[s['j']] + 3] - D[6 * ix[s['i']]:6 * ix[s['i']] + 3])
            if abs(e) < 1e-5 * dbig: return 'edge', steps, off
            if (s['to'] and e < 0) or (s['co'] and not s['to'] and e > 0): new.add(k)
        for (n, d), (ks, dr) in fr.sspr.items():
            if dr is None: continue
            x = D[6 * ix[n] + d]
            if abs(x) < 1e-5 * dbig: return 'edge', steps, off
            if (dr == '-') == (x < 0): new.discard((n, d))
            else: new.add((n, d))
        if new != off:
            off, phase, geo = new, 1, None
        elif pdelta and phase == 1:
            phase, geo = 2, mean
        else:
            return 'settled', steps, off

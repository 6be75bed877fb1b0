"""Scenario generators.  Every random choice comes from the random.Random handed in."""
import math, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fem

DOFS = ['DX', 'DY', 'DZ', 'RX', 'RY', 'RZ']
NDIRS = ['FX', 'FY', 'FZ', 'MX', 'MY', 'MZ']
LDIRS = ['Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz']
CASES = ['D', 'L', 'W', 'Case 1']
KINDS = [('V', 'Fy'), ('V', 'Fz'), ('M', 'Mz'), ('M', 'My'), ('N', 'N'), ('T', 'T')]
DKINDS = [('d', 'dx'), ('d', 'dy'), ('d', 'dz'), ('r', 'dy'), ('r', 'dz')]


def lu(r, lo, hi, nd=3):
    """log-uniform, rounded to nd significant digits"""
    v = math.exp(r.uniform(math.log(lo), math.log(hi)))
    return float('%.*g' % (nd, v))


def sg(r, lo, hi):
    return lu(r, lo, hi) * r.choice([1, 1, -1])


def mk_analyze(how='general', sparse=None, tags=None, stab=True, **kw):
    e = {'op': 'analyze', 'how': how, 'sparse': sparse, 'tags': tags, 'stab': stab}
    e.update(kw)
    return e


class Frame:
    """A frame model under construction: the calls made so far and a mirror of its content for the generators."""

    def __init__(self, r):
        self.r = r
        self.ev = []
        self.nodes, self.aux, self.members, self.springs, self.mats = {}, {}, {}, {}, {}
        self.sup, self.sspr, self.disp, self.combos = {}, {}, {}, {}
        self.cases = set()

    def add(self, **e):
        self.ev.append(e)
        return e

    # construction --------------------------------------------------------------------------------------------
    def material(self, name=None):
        r = self.r
        name = name or 'Mat%d' % len(self.mats)
        E = lu(r, 200., 30000.); nu = r.choice([0.2, 0.3, 0.25]); G = r.choice([E / (2 * (1 + nu)), lu(r, 0.3, .5) * E])
        self.mats[name] = dict(E=E, G=G, nu=nu, rho=lu(r, .001, .1))
        self.add(op='add_material', name=name, **self.mats[name])
        return name

    def node(self, name, p):
        self.nodes[name] = tuple(float(x) for x in p)
        self.add(op='add_node', name=name, X=float(p[0]), Y=float(p[1]), Z=float(p[2]))

    def auxnode(self, name, p):
        self.aux[name] = tuple(float(x) for x in p)
        self.add(op='add_auxnode', name=name, X=float(p[0]), Y=float(p[1]), Z=float(p[2]))

    def member(self, name, i, j, mat=None, aux=None, to=False, co=False, sec=None, **sp):
        r = self.r
        mat = mat or r.choice(list(self.mats))
        A = sp.get('A') or lu(r, .5, 10.); Iy = sp.get('Iy') or lu(r, .5, 20.); Iz = sp.get('Iz') or lu(r, .5, 20.); J = sp.get('J') or lu(r, .5, 10.)
        if sec:
            self.add(op='add_section', name=sec, A=A, Iy=Iy, Iz=Iz, J=J, mat=mat)
            self.add(op='add_member', name=name, i=i, j=j, mat=mat, Iy=None, Iz=None, J=None, A=None, aux=aux, to=to, co=co, sec=sec)
        else:
            self.add(op='add_member', name=name, i=i, j=j, mat=mat, Iy=Iy, Iz=Iz, J=J, A=A, aux=aux, to=to, co=co, sec=None)
        self.members[name] = dict(i=i, j=j, mat=mat, A=A, Iy=Iy, Iz=Iz, J=J, aux=aux, rel=[False] * 12, to=to, co=co, xs=[])

    def support(self, n, s):
        self.sup[n] = list(s)
        self.add(op='def_support', node=n, s=list(s))

    def support_spring(self, n, d, ks, dr=None):
        self.sspr[(n, d)] = (ks, dr)
        self.add(op='def_support_spring', node=n, dof=DOFS[d], ks=ks, dir=dr)

    def settle(self, n, d, v):
        self.disp[(n, d)] = v
        self.add(op='def_node_disp', node=n, dof=DOFS[d], val=v)

    def release(self, k, rel):
        self.members[k]['rel'] = list(rel)
        self.add(op='def_releases', member=k, r=list(rel))

    def spring(self, name, i, j, ks, to=False, co=False):
        self.springs[name] = dict(i=i, j=j, ks=ks, to=to, co=co)
        self.add(op='add_spring', name=name, i=i, j=j, ks=ks, to=to, co=co)

    def combo(self, name, factors, tags=None):
        self.combos[name] = dict(factors=factors, tags=tags)
        self.add(op='add_load_combo', name=name, factors=factors, tags=tags)

    def L(self, k):
        m = self.members[k]
        return math.dist(self.nodes[m['i']], self.nodes[m['j']])

    def chain_positions(self, k):
        m = self.members[k]
        return [math.dist(self.nodes[m['i']], self.nodes[n]) for n in fem.chain(self.nodes, m['i'], m['j'])]

    # loads -----------------------------------------------------------------------------------------------------
    def case(self):
        c = self.r.choice(CASES)
        self.cases.add(c)
        return c

    def node_load(self, n=None, case=None, dirs=NDIRS):
        r = self.r
        self.add(op='add_node_load', node=n or r.choice(list(self.nodes)), dir=r.choice(dirs), P=sg(r, .5, 20.), case=case or self.case())

    def pt_load(self, k=None, case=None, dirs=NDIRS + LDIRS, x=None):
        r = self.r
        k = k or r.choice(list(self.members)); L = self.L(k)
        if x is None:
            x = r.choice([0., L, L / 2, L * r.uniform(.05, .95), L * r.uniform(.05, .95)] + self.chain_positions(k))
        self.members[k]['xs'].append(x)
        self.add(op='add_member_pt_load', member=k, dir=r.choice(dirs), P=sg(r, .5, 20.), x=float(x), case=case or self.case())

    def dist_load(self, k=None, case=None, dirs=['FX', 'FY', 'FZ', 'Fx', 'Fy', 'Fz']):
        r = self.r
        k = k or r.choice(list(self.members)); L = self.L(k)
        w1 = sg(r, .1, 5.)
        w2 = r.choice([w1, sg(r, .1, 5.), 0., -w1])
        if r.random() < .2: w1, w2 = w2, w1
        x1, x2 = None, None
        if r.random() < .6:
            x1 = r.choice([0., L * r.uniform(.05, .5)]); x2 = r.choice([L, L * r.uniform(.55, .95)] + [q for q in self.chain_positions(k) if q > x1 + .02 * L])
            self.members[k]['xs'] += [x1, x2]
        self.add(op='add_member_dist_load', member=k, dir=r.choice(dirs), w1=w1, w2=w2, x1=x1, x2=x2, case=case or self.case())

    def self_weight(self, case=None):
        self.add(op='add_member_self_weight', dir=self.r.choice(['FY', 'FX', 'FZ', 'FY']), factor=self.r.choice([-1., 1., -1.4]), case=case or self.case())

    def loads(self, n):
        for _ in range(n):
            q = self.r.random()
            if q < .28: self.node_load()
            elif q < .58: self.pt_load()
            elif q < .93: self.dist_load()
            else: self.self_weight()

    def make_combos(self, n, tags=False):
        r = self.r
        for q in range(n):
            cs = [c for c in sorted(self.cases) if r.random() < .75] or sorted(self.cases)[:1]
            f = {c: r.choice([1., 1.2, -1., .5, 1.6, 0.]) for c in cs}
            if all(v == 0 for v in f.values()): f[cs[0]] = 1.0
            self.combo('C%d' % (q + 1), f, r.choice([None, ['a'], ['b'], ['a', 'b']]) if tags else None)

    # queries ---------------------------------------------------------------------------------------------------
    def positions(self, k, n):
        L = self.L(k); r = self.r
        base = [0., L] + [q for q in self.members[k]['xs']] + self.chain_positions(k)
        P = [0., L] + [r.choice(base) if r.random() < .3 else L * r.uniform(0, 1) for _ in range(n)]
        # positions just beside the loads
        for x in self.members[k]['xs'][:2]:
            for d in (1e-4, -1e-4):
                if 0 < x + d * L < L: P.append(x + d * L)
        return sorted(set(float(min(max(x, 0.), L)) for x in P))

    def queries(self, npos=3, kinds=KINDS, ext=(), arr=0, members=None, arrkinds=None):
        r = self.r
        out = {}
        for k in members or self.members:
            P = self.positions(k, npos)
            L = self.L(k)
            a = []
            if arr:
                for kd, d in arrkinds or (KINDS + DKINDS):
                    if r.random() < .5:
                        a.append([kd, d, r.choice([2, 3, 5, arr])])
                    else:
                        a.append([kd, d, 3, sorted({0., L * (1 - 1e-13)} | {L * r.uniform(.02, .98) for _ in range(2)})])
            out[k] = {'q': [[kd, d, x] for kd, d in kinds for x in P], 'ext': [list(x) for x in ext], 'arr': a}
        return {'mem': out}


REL_CHOICES = [
    [5], [11], [4, 5], [10, 11], [4, 5, 10, 11], [5, 11], [4], [10], [3], [9], [3, 4, 5], [9, 10, 11], [3, 4, 5, 10, 11], [4, 5, 9, 10, 11],
    [0], [6], [1], [7], [2], [8], [1, 5], [8, 10], [1, 4], [0, 5], [6, 10, 11],
]


def lattice_point(r, old, planar):
    v = [0., 2., 3., 4.5, -1.5, 6.]
    if old and r.random() < .5:
        p = list(r.choice(old))
        p[r.choice([0, 1] if planar else [0, 1, 2])] = r.choice(v) + r.choice([0, .25])
    else:
        p = [r.choice(v) + r.choice([0, 0, .3]), r.choice(v), 0. if planar else r.choice(v)]
    return tuple(p)


def random_frame(r, nmax=4, inner=.35, rel=.5, springs=.3, sspr=.3, settle=.3, aux=.3, oneway=0., settle_free=0., fixed_bias=.6, secs=.3, shear_rel=True, extra=2, maxcond=1e7):
    """A stable frame (no loads yet)."""
    for attempt in range(400):
        f = Frame(r)
        f.material()
        if r.random() < .3: f.material()
        planar = r.random() < .3
        n = r.randint(2, nmax)
        pts = []
        while len(pts) < n:
            p = lattice_point(r, pts, planar)
            if all(math.dist(p, q) > .6 for q in pts): pts.append(p)
        names = ['n%d' % (q + 1) for q in range(n)]
        if r.random() < .3: r.shuffle(names)
        order = list(zip(names, pts))
        for nm, p in order: f.node(nm, p)
        # edges: spanning tree plus extras
        edges = []
        for q in range(1, n):
            edges.append((names[r.randrange(q)], names[q]))
        for _ in range(r.randint(0, extra)):
            a, b = r.sample(names, 2)
            if (a, b) not in edges and (b, a) not in edges: edges.append((a, b))
        ok = True
        for q, (a, b) in enumerate(edges):
            if r.random() < .5: a, b = b, a
            ax = None
            if r.random() < aux:
                ax = 'x%d' % q
                p = [f.nodes[a][d] + r.uniform(-3, 3) for d in range(3)]
                u = fem.axes(f.nodes[a], f.nodes[b])[0]
                w = [p[d] - f.nodes[a][d] for d in range(3)]
                t = sum(u[d] * w[d] for d in range(3))
                if math.sqrt(max(sum(x * x for x in w) - t * t, 0)) < .5: ax = None
                else: f.auxnode(ax, [round(c, 2) for c in p])
            f.member('M%d' % (q + 1), a, b, aux=ax, sec=('S%d' % q if r.random() < secs else None))
        # nodes on the line of a member
        if r.random() < inner:
            k = r.choice(list(f.members)); m = f.members[k]
            for q in range(r.randint(1, 2)):
                t = r.uniform(.15, .85)
                a, b = f.nodes[m['i']], f.nodes[m['j']]
                f.node('i%d' % q, [a[d] + t * (b[d] - a[d]) for d in range(3)])
        # supports
        for q, nm in enumerate(list(f.nodes)):
            x = r.random()
            if q == 0 and x < fixed_bias: f.support(nm, [True] * 6)
            elif x < (.8 if q == 0 else .35):
                f.support(nm, r.choice([[True] * 3 + [False] * 3, [True] * 6, [False, True, True, False, False, False], [True, True, True, True, False, False],
                                        [r.random() < .5 for _ in range(6)]]))
        for nm in f.nodes:
            if r.random() < sspr:
                for d in r.sample(range(6), r.randint(1, 2)): f.support_spring(nm, d, lu(r, 1., 500.))
        if r.random() < springs and len(f.nodes) >= 2:
            for q in range(r.randint(1, 2)):
                a, b = r.sample(list(f.nodes), 2)
                if math.dist(f.nodes[a], f.nodes[b]) > .3: f.spring('S%d' % (q + 1), a, b, lu(r, 5., 500.))
        for nm, s in list(f.sup.items()):
            for d in range(6):
                if s[d] and r.random() < settle * .25: f.settle(nm, d, sg(r, .001, .05))
        if r.random() < settle_free:
            f.settle(r.choice(list(f.nodes)), r.randrange(6), sg(r, .001, .05))
        for k in f.members:
            if r.random() < rel:
                rl = [False] * 12
                for d in r.choice(REL_CHOICES if shear_rel else REL_CHOICES[:14]): rl[d] = True
                f.release(k, rl)
        if fem.well_conditioned(f, maxcond): return f
    raise RuntimeError('no stable frame found')

"""What is generated for each property: CONFIG, plan() and make().  A scenario specification is (property, generator, index, seed)."""
import random, sys, os, math, json, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, fem
from gen import KINDS, DKINDS, mk_analyze

import surf

GENS = dict(surf.ALL)


def generator(f):
    GENS[f.__name__] = f
    return f


def how(r):
    return r.choice(['general', 'general', 'linear'])


def anl(r, **kw):
    return mk_analyze(how(r), sparse=r.random() < .5, stab=r.random() < .7, **kw)


# ------------------------------------------------------------------------------------------------ mechanics of frames

def _frame(r, nl=(1, 4), nc=(1, 2), **kw):
    f = gen.random_frame(r, **kw)
    f.loads(r.randint(*nl))
    f.make_combos(r.randint(*nc))
    return f


@generator
def frame_nodal(r, pid):
    """Displacements and reactions under a few combinations, by one to three analyses of the same model."""
    f = _frame(r, (1, 5), (1, 3), nmax=5, inner=.35, springs=.4, sspr=.5, settle=.4, settle_free=(.25 if pid == 'P02' else 0.))
    ev = f.ev
    for _ in range(r.choice([1, 1, 2, 3])):
        ev = ev + [anl(r)]
    return ev


@generator
def frame_sections(r, pid):
    """Section forces and deflections of all members at random positions and beside the loads."""
    f = _frame(r, (2, 6), (1, 2), nmax=3, inner=.4, springs=.15, sspr=.3)
    kinds = {'P05': KINDS, 'P07': DKINDS}.get(pid, KINDS)
    return f.ev + [anl(r, q=f.queries(4, kinds))]


@generator
def frame_extremes(r, pid):
    f = _frame(r, (2, 6), (1, 2), nmax=3, inner=.4, springs=.15, sspr=.3)
    q = f.queries(1, [r.choice(KINDS)], KINDS + DKINDS[:3], 5)
    ev = f.ev + [anl(r, q=q)]
    if r.random() < .3:
        f.ev = []
        f.loads(1)
        ev += f.ev + [anl(r, q=q)]
    return ev


# ------------------------------------------------------------------------------------------------ edit histories (P12, P18)

class Edits:
    """Random modelling calls, mostly legal, some to be rejected.  The mirror kept here only steers the choice of arguments."""

    def __init__(self, r, surfaces=True):
        self.r, self.ev, self.surfaces = r, [], surfaces
        self.names = {k: [] for k in ('nodes', 'aux', 'mats', 'secs', 'springs', 'members', 'plates', 'quads', 'combos')}
        self.ends = {}
        self.pos = {}

    def call(self, **e):
        self.ev.append(dict(e, proj=True))
        return '$%d' % (len(self.ev) - 1)

    def newname(self, reg, prefix):
        """(argument, name for later reference or None while unknown)"""
        r, x = self.r, self.r.random()
        if x < .25: return None, None
        if x < .3: return '', None
        if x < .37 and self.names[reg]: return r.choice(self.names[reg]), 'dup'
        if x < .6:    # names that look like automatic ones, to collide with them
            n = '%s%d' % (prefix, r.randint(0, 6))
        else:
            n = '%s_%d' % (r.choice(['a', 'b', 'q']), r.randint(0, 40))
        return (n, 'dup' if n in self.names[reg] else n)

    def pick(self, reg, bad=.06):
        if self.r.random() < bad or not self.names[reg]: return 'nobody'
        return self.r.choice(self.names[reg])

    def store(self, reg, arg, known, ref):
        if known == 'dup': return None
        nm = ref if known is None else known
        self.names[reg].append(nm)
        return nm

    def some_nodes(self, n):
        if len(self.names['nodes']) >= n and self.r.random() < .95: return self.r.sample(self.names['nodes'], n)
        return [self.pick('nodes') for _ in range(n)]

    def step(self):
        r = self.r
        N = self.names
        ops = ['node'] * (6 if len(N['nodes']) < 6 else 2) + ['aux', 'mat', 'sec', 'spring', 'spring', 'member', 'member', 'member', 'support', 'sspring', 'disp', 'rel',
               'combo', 'nload', 'pload', 'dload', 'sw', 'delnode', 'delaux', 'delspring', 'delmember', 'delloads'] + (['plate', 'quad', 'ppress', 'qpress'] if self.surfaces else [])
        getattr(self, 'do_' + r.choice(ops))()

    def do_node(self):
        arg, kn = self.newname('nodes', 'N')
        p = [float(self.r.randint(0, 9)), float(self.r.randint(0, 9)), self.r.randint(0, 90) / 8.0]
        ref = self.call(op='add_node', name=arg, X=p[0], Y=p[1], Z=p[2])
        self.store('nodes', arg, kn, ref)

    def do_aux(self):
        arg, kn = self.newname('aux', 'AN')
        self.store('aux', arg, kn, self.call(op='add_auxnode', name=arg, X=self.r.uniform(-5, 5), Y=2.0, Z=self.r.uniform(-5, 5)))

    def do_mat(self):
        nm = self.r.choice(['steel', 'wood', 'M%d' % self.r.randint(0, 3)])
        dup = nm in self.names['mats']
        self.call(op='add_material', name=nm, E=float(self.r.randint(100, 900)), G=50.0, nu=.3, rho=self.r.choice([.1, .25, .5]))
        if not dup: self.names['mats'].append(nm)

    def do_sec(self):
        nm = self.r.choice(['W8', 'W10', 'S%d' % self.r.randint(0, 3)])
        if nm in self.names['secs'] or not self.names['mats']:
            if nm not in self.names['secs']: return
        mt = self.r.choice(self.names['mats']) if self.names['mats'] else 'nobody'
        dup = nm in self.names['secs']
        self.call(op='add_section', name=nm, A=self.r.uniform(1, 9), Iy=2.0, Iz=self.r.uniform(1, 9), J=1.0, mat=mt)
        if not dup: self.names['secs'].append(nm)

    def do_spring(self):
        arg, kn = self.newname('springs', 'S')
        i, j = self.some_nodes(2)
        ref = self.call(op='add_spring', name=arg, i=i, j=j, ks=self.r.uniform(1, 9), to=self.r.random() < .2, co=self.r.random() < .2)
        if 'nobody' not in (i, j): self.store('springs', arg, kn, ref)

    def do_member(self):
        arg, kn = self.newname('members', 'M')
        i, j = self.some_nodes(2)
        mt = self.pick('mats')
        ax = self.pick('aux') if self.r.random() < .25 and self.names['aux'] else None
        sec = self.r.choice(self.names['secs'] + (['nobody'] if self.r.random() < .1 else [])) if self.names['secs'] and self.r.random() < .4 else None
        s = dict(Iy=None, Iz=None, J=None, A=None) if sec else dict(Iy=self.r.uniform(1, 9), Iz=2.0, J=3.0, A=self.r.choice([1.5, 2.0, 4.0]))
        ref = self.call(op='add_member', name=arg, i=i, j=j, mat=mt, aux=ax, to=self.r.random() < .15, co=self.r.random() < .15, sec=sec, **s)
        if 'nobody' not in (i, j, mt, ax, sec): self.store('members', arg, kn, ref)

    def surface(self, kind, prefix):
        arg, kn = self.newname(kind + 's', prefix)
        c = self.some_nodes(4); mt = self.pick('mats')
        ref = self.call(op='add_' + kind, name=arg, i=c[0], j=c[1], m=c[2], n=c[3], t=self.r.choice([.5, .25]), mat=mt, kx=self.r.choice([1.0, .35]), ky=self.r.choice([1.0, .5]))
        if 'nobody' not in c + [mt]: self.store(kind + 's', arg, kn, ref)

    def do_plate(self): self.surface('plate', 'P')
    def do_quad(self): self.surface('quad', 'Q')

    def do_support(self):
        self.call(op='def_support', node=self.pick('nodes'), s=[self.r.random() < .5 for _ in range(6)])

    def do_sspring(self):
        self.call(op='def_support_spring', node=self.pick('nodes'), dof=self.r.choice(gen.DOFS + (['DQ'] if self.r.random() < .3 else [])), ks=self.r.uniform(1, 9),
                  dir=self.r.choice([None, '+', '-'] + (['x'] if self.r.random() < .3 else [])))

    def do_disp(self):
        self.call(op='def_node_disp', node=self.pick('nodes'), dof=self.r.choice(gen.DOFS + (['FX'] if self.r.random() < .3 else [])), val=self.r.uniform(-1, 1))

    def do_rel(self):
        self.call(op='def_releases', member=self.pick('members'), r=[self.r.random() < .3 for _ in range(12)])

    def do_combo(self):
        nm = self.r.choice(['C1', 'C2', 'C3'])
        self.call(op='add_load_combo', name=nm, factors={c: float(self.r.randint(-2, 3)) for c in gen.CASES if self.r.random() < .5}, tags=self.r.choice([None, ['a'], ['a', 'b']]))
        if nm not in self.names['combos']: self.names['combos'].append(nm)

    def case(self):
        return self.r.choice(gen.CASES)

    def load(self, **e):
        if self.r.random() < .2: e.update(case='Case 1', defcase=True)
        else: e.update(case=self.case())
        self.call(**e)

    def do_nload(self):
        self.load(op='add_node_load', node=self.pick('nodes'), dir=self.r.choice(gen.NDIRS + (['Fx', 'GX'] if self.r.random() < .2 else [])), P=self.r.uniform(-5, 5))

    def do_pload(self):
        self.load(op='add_member_pt_load', member=self.pick('members'), dir=self.r.choice(gen.NDIRS + gen.LDIRS + (['fx', 'XX'] if self.r.random() < .2 else [])), P=self.r.uniform(-5, 5), x=self.r.uniform(0, 1))

    def do_dload(self):
        x = self.r.choice([(None, None), (0.0, None), (None, .75), (.125, .5), (0.0, 1.0)])
        self.load(op='add_member_dist_load', member=self.pick('members'), dir=self.r.choice(['FX', 'FY', 'FZ', 'Fx', 'Fy', 'Fz'] + (['Mx', 'MX'] if self.r.random() < .2 else [])),
                  w1=self.r.uniform(-5, 5), w2=self.r.uniform(-5, 5), x1=x[0], x2=x[1])

    def do_sw(self):
        self.load(op='add_member_self_weight', dir=self.r.choice(['FX', 'FY', 'FZ', 'Fy']), factor=self.r.choice([-1.0, 1.0, -1.2]))

    def do_ppress(self):
        self.load(op='add_plate_surface_pressure', elem=self.pick('plates'), p=self.r.uniform(-1, 1))

    def do_qpress(self):
        self.load(op='add_quad_surface_pressure', elem=self.pick('quads'), p=self.r.uniform(-1, 1))

    def drop(self, reg, nm):
        if nm in self.names[reg]: self.names[reg].remove(nm)

    def do_delnode(self):
        if self.r.random() < .5: return
        n = self.pick('nodes')
        self.call(op='delete_node', node=n)
        self.drop('nodes', n)

    def do_delaux(self):
        n = self.pick('aux')
        if n != 'nobody' or self.r.random() < .2: self.call(op='delete_auxnode', aux=n); self.drop('aux', n)

    def do_delspring(self):
        n = self.pick('springs'); self.call(op='delete_spring', spring=n); self.drop('springs', n)

    def do_delmember(self):
        n = self.pick('members'); self.call(op='delete_member', member=n); self.drop('members', n)

    def do_delloads(self):
        if self.r.random() < .4: self.call(op='delete_loads')

    def look(self):
        self.ev.append({'op': 'orphans'})
        self.ev.append({'op': 'cases'})


@generator
def edits(r, pid):
    e = Edits(r)
    e.do_mat()
    for _ in range(r.randint(2, 4)): e.do_node()
    for q in range(r.randint(10, 30)):
        e.step()
        if r.random() < .15: e.look()
        if r.random() < .03: e.ev.append({'op': 'rename', 'proj': True}) if False else None
    e.look()
    return e.ev


# ------------------------------------------------------------------------------------ relations between analyses (P03, P04, P10, P11, P13, P19)

def on(ev, mod):
    return [dict(e, mod=mod) for e in ev]


def cmp_event(mod, terms, parts, rel=1e-6):
    return {'op': 'cmp', 'mod': mod, 'terms': [dict({'w': 1.0}, **t) for t in terms], 'parts': parts, 'rel': rel}


def split(ev):
    """(content, combinations) of an event list"""
    return [e for e in ev if e['op'] != 'add_load_combo'], [e for e in ev if e['op'] == 'add_load_combo']


@generator
def superpose(r, pid):
    f = gen.random_frame(r, nmax=4, settle=0., springs=.4, sspr=.4)
    f.loads(r.randint(2, 6))
    f.make_combos(r.randint(1, 3), tags=True)
    base, combos = split(f.ev)
    q = f.queries(2, [r.choice(KINDS) for _ in range(3)] + [r.choice(DKINDS)], (), r.choice([0, 0, 3]))
    q['spr'] = True
    units = [{'op': 'add_load_combo', 'name': 'U ' + c, 'factors': {c: 1.0}, 'tags': r.choice([None, ['a'], ['u']])} for c in sorted(f.cases)]
    allc = combos + units
    r.shuffle(allc)
    ev = base + allc + [anl(r, q=q)]
    a = len(ev)
    # superposition
    for c in combos:
        ev.append(cmp_event(1, [{'ev': a, 'combo': c['name']}] + [{'ev': a, 'combo': 'U ' + k, 'w': -v} for k, v in c['factors'].items()], ['D', 'R', 'mem', 'spr']))
    # independence of the other combinations, of their order and of tags
    keep = r.sample(allc, r.randint(1, max(1, len(allc) - 1)))
    ev += on(base + keep, 2)
    tags = r.choice([None, ['a'], ['b'], ['u', 'b'], ['nothing']])
    ev.append(dict(anl(r, q=q), mod=2, tags=tags))
    b = len(ev)
    for c in keep:
        ev.append(cmp_event(1, [{'ev': a, 'combo': c['name']}, {'ev': b, 'combo': c['name'], 'w': -1.0}], ['D', 'R', 'mem', 'spr']))
    if r.random() < .5:     # another selection on the same model
        ev.append(dict(anl(r, q=q), mod=2, tags=r.choice([None, ['a'], ['b'], ['u', 'b'], ['a', 'b']])))
        b2 = len(ev)
        for c in keep:
            ev.append(cmp_event(1, [{'ev': a, 'combo': c['name']}, {'ev': b2, 'combo': c['name'], 'w': -1.0}], ['D', 'R', 'mem', 'spr']))
    # a model without combinations
    if 'Case 1' in f.cases:
        ev += on(base, 3) + [dict(anl(r, q=q), mod=3)]
        ev.append(cmp_event(1, [{'ev': a, 'combo': 'U Case 1'}, {'ev': len(ev), 'combo': 'Combo 1', 'w': -1.0}], ['D', 'R', 'mem', 'spr']))
    return ev


def curve(f, k):
    """Does the member's deflection curve end at its nodes: no axial or shear release."""
    return not any(f.members[k]['rel'][d] for d in (0, 1, 2, 6, 7, 8))


def generic_positions(f, r, k, n):
    """positions away from loads and nodes"""
    L = f.L(k)
    bad = [0., L] + [x for x in f.members[k]['xs'] if x is not None] + f.chain_positions(k)
    out = []
    while len(out) < n:
        x = L * r.uniform(.01, .99)
        if all(abs(x - b) > 1e-3 * L for b in bad): out.append(x)
    return sorted(out)


@generator
def subdivide(r, pid):
    """The same frame with and without idle nodes on the lines of its members, and idle supported nodes off the lines."""
    f = gen.random_frame(r, nmax=3, inner=.2, springs=.2, sspr=.3, settle=.3)
    for _ in range(r.randint(2, 5)):
        x = r.random()
        k = r.choice(list(f.members))
        if x < .45: f.pt_load(k, x=r.choice([0., f.L(k), f.L(k) * r.uniform(.03, .97), f.L(k) * r.uniform(.03, .97)]))
        elif x < .9: f.dist_load(k)
        else: f.self_weight()
    f.make_combos(1)
    base, combos = split(f.ev)
    n_build = [i for i, e in enumerate(base) if e['op'] == 'add_node']
    extra, off, ts = [], [], {}
    for q in range(r.randint(1, 5)):
        k = r.choice(list(f.members)); m = f.members[k]
        a, b = f.nodes[m['i']], f.nodes[m['j']]; L = f.L(k)
        if r.random() < .75 or not q:
            opts = [r.uniform(.04, .96)] + [x / L for x in m['xs'] if x is not None and .04 < x / L < .96]
            t = r.choice(opts)
            p = [a[d] + t * (b[d] - a[d]) for d in range(3)]
            if any(math.dist(p, z) < .02 * L for z in list(f.nodes.values()) + extra): continue
            # the point must lie on no other member
            if any(fem.on_segment(p, f.nodes[mm['i']], f.nodes[mm['j']], .001) for kk, mm in f.members.items() if kk != k): continue
            extra.append(p)
            ts.setdefault(k, []).append(t * L)
        else:
            w = r.choice(['beyond', 'beside', 'before'])
            ax = fem.axes(a, b)
            if w == 'beyond': p = [b[d] + r.choice([.01, .3]) * L * ax[0][d] for d in range(3)]
            elif w == 'before': p = [a[d] - r.choice([.01, .3]) * L * ax[0][d] for d in range(3)]
            else: p = [a[d] + r.uniform(.2, .8) * (b[d] - a[d]) + r.choice([.003, .2]) * L * ax[r.choice([1, 2])][d] for d in range(3)]
            # it must not be on the line of another member
            if any(fem.on_segment(p, f.nodes[mm['i']], f.nodes[mm['j']], .001) for mm in f.members.values()) or any(math.dist(p, z) < .005 * L for z in f.nodes.values()): continue
            off.append(p)
    if not extra: return subdivide(r, pid)
    new = []
    for q, p in enumerate(extra): new.append({'op': 'add_node', 'name': 'x%d' % q, 'X': float(p[0]), 'Y': float(p[1]), 'Z': float(p[2])})
    for q, p in enumerate(off):
        new.append({'op': 'add_node', 'name': 'o%d' % q, 'X': float(p[0]), 'Y': float(p[1]), 'Z': float(p[2])})
    base2 = list(base)
    for e in new: base2.insert(r.randint(n_build[0], n_build[-1] + 1), e)
    base2 += [{'op': 'def_support', 'node': 'o%d' % q, 's': [True] * 6} for q in range(len(off))]
    Q = {}
    ptx = {k: [e['x'] for e in base if e['op'] == 'add_member_pt_load' and e['member'] == k] for k in f.members}
    for k in f.members:
        for t in ts.get(k, []): f.members[k]['xs'].append(t)
        P = generic_positions(f, r, k, 5)
        DK = DKINDS if curve(f, k) else KINDS
        ks = [r.choice(KINDS), r.choice(KINDS), r.choice(DK), r.choice(DK)]
        # at a concentrated action exactly at an end of the member either limit is an extreme (judged under P06)
        ext = [] if any(x is not None and min(x, f.L(k) - x) < 1e-6 * f.L(k) for x in ptx[k]) else [list(x) for x in KINDS]
        Q[k] = {'q': [[a, d, x] for a, d in ks for x in P], 'ext': ext,
                'arr': [[a, d, len(P), P] for a, d in [r.choice(DK), r.choice(KINDS)]]}
    q = {'mem': Q}
    ev = base + combos + [anl(r, q=q)]
    a = len(ev)
    ev += on(base2 + combos, 2) + [dict(anl(r, q=q), mod=2)]
    ident = {n: [n] for n in f.nodes}
    for c in combos:
        ev.append(cmp_event(1, [{'ev': a, 'combo': c['name'], 'nm': ident}, {'ev': len(base) + len(combos) + 1 + len(base2) + len(combos) + 1, 'combo': c['name'], 'w': -1.0, 'nm': ident}], ['D', 'R', 'mem']))
    return ev


@generator
def attached(r, pid):
    """Members with internal nodes to which supports, springs, loads and other members are attached, judged by equilibrium."""
    f = None
    while f is None or not [k for k in f.members if len(fem.chain(f.nodes, f.members[k]['i'], f.members[k]['j'])) > 2]:
        f = gen.random_frame(r, nmax=4, inner=1., springs=.4, sspr=.5, settle=.4, shear_rel=r.random() < .5)
    f.loads(r.randint(2, 5))
    f.make_combos(1)
    return {'events': f.ev + [anl(r, q=f.queries(3, KINDS))], 'props': ['P04', 'P02', 'P05']}


# P11 ---------------------------------------------------------------------------------------------------------------

NODE_FIELDS = {'add_spring': ['i', 'j'], 'add_member': ['i', 'j']}


def rename_events(ev, nn, mm, ss, xx, mt):
    out = []
    for e in ev:
        e = dict(e); op = e['op']
        if op == 'add_node': e['name'] = nn[e['name']]
        if op == 'add_auxnode': e['name'] = xx[e['name']]
        if op == 'add_material': e['name'] = mt[e['name']]
        if op == 'add_section': e['mat'] = mt[e['mat']]
        if op in ('add_spring', 'add_member'):
            e['i'], e['j'] = nn[e['i']], nn[e['j']]
            e['name'] = (mm if op == 'add_member' else ss)[e['name']]
        if op == 'add_member':
            e['mat'] = mt[e['mat']]
            if e['aux']: e['aux'] = xx[e['aux']]
        if 'node' in e: e['node'] = nn[e['node']]
        if 'member' in e: e['member'] = mm[e['member']]
        out.append(e)
    return out


RANK = {'add_material': 0, 'add_section': 1, 'add_node': 2, 'add_auxnode': 2, 'add_spring': 4, 'add_member': 4}


def shuffle_events(ev, r):
    """A random order that respects the dependencies between calls."""
    groups = {}
    for e in ev: groups.setdefault(RANK.get(e['op'], 5 if e['op'] != 'add_member_self_weight' else 6), []).append(e)
    out = []
    for k in sorted(groups):
        g = groups[k]; r.shuffle(g); out += g
    return out


def moved(ev, p):
    out = []
    for e in ev:
        if e['op'] in ('add_node', 'add_auxnode'):
            q = p([e['X'], e['Y'], e['Z']])
            e = dict(e, X=float(q[0]), Y=float(q[1]), Z=float(q[2]))
        out.append(e)
    return out


def rotated(ev, quarter):
    """The model turned by quarter*90 degrees about the Y axis: x -> z' etc.  (X, Z) -> (cX + sZ, -sX + cZ)."""
    c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][quarter]
    out = []
    for e in moved(ev, lambda p: [c * p[0] + s * p[2] + 0., p[1], -s * p[0] + c * p[2] + 0.]):
        e = dict(e)
        op = e['op']

        def axis(a):      # image of a unit X (0) or Z (2) axis: (index, sign)
            v = (c, -s) if a == 0 else (s, c)
            return (0, v[0]) if v[0] else (2, v[1])
        if op == 'def_support':
            t = list(e['s'])
            for a in (0, 2):
                b, _ = axis(a)
                t[b], t[b + 3] = e['s'][a], e['s'][a + 3]
            e['s'] = t
        if op in ('def_support_spring', 'def_node_disp'):
            d = gen.DOFS.index(e['dof'])
            if d % 3 != 1:
                b, sg = axis(d % 3)
                e['dof'] = gen.DOFS[b + (3 if d > 2 else 0)]
                if op == 'def_node_disp': e['val'] = e['val'] * sg
                elif e['dir'] and sg < 0: e['dir'] = '+' if e['dir'] == '-' else '-'
        if 'dir' in e and e['dir'] in gen.NDIRS and op != 'def_support_spring':
            d = gen.NDIRS.index(e['dir'])
            if d % 3 != 1:
                b, sg = axis(d % 3)
                e['dir'] = gen.NDIRS[b + (3 if d > 2 else 0)]
                for k in ('P', 'w1', 'w2', 'factor'):
                    if k in e: e[k] = e[k] * sg
        out.append(e)
    return out


def rotated_any(ev, th):
    """Turned by an arbitrary angle; only for models whose supports do not distinguish X from Z."""
    c, s = math.cos(th), math.sin(th)
    out = []
    for e in moved(ev, lambda p: [c * p[0] + s * p[2], p[1], -s * p[0] + c * p[2]]):
        d = e.get('dir')
        if d in ('FX', 'FZ', 'MX', 'MZ') and e['op'] != 'def_support_spring':
            x, z = (c, -s) if d[1] == 'X' else (s, c)
            for dd, k in ((d[0] + 'X', x), (d[0] + 'Z', z)):
                g = dict(e, dir=dd)
                for a in ('P', 'w1', 'w2', 'factor'):
                    if a in g: g[a] = g[a] * k
                out.append(g)
        else: out.append(e)
    return out


def symmetric_supports(f):
    for n, s in f.sup.items():
        if s[0] != s[2] or s[3] != s[5]: return False
    return not any(d % 3 != 1 for (_, d) in f.sspr) and not any(d % 3 != 1 for (_, d) in f.disp)


def is_vertical(f, k):
    m = f.members[k]; a, b = f.nodes[m['i']], f.nodes[m['j']]
    return abs(a[0] - b[0]) < 1e-9 and abs(a[2] - b[2]) < 1e-9


def reversed_events(ev, f, rev):
    out = []
    for e in ev:
        e = dict(e); op = e['op']
        k = e.get('member') or (e['name'] if op == 'add_member' else None)
        if k in rev:
            up = is_vertical(f, k) or f.members[k]['aux'] is not None
            flip = 'xy' if up else 'xz'
            L = f.L(k)
            if op == 'add_member': e['i'], e['j'] = e['j'], e['i']
            if op == 'def_releases': e['r'] = e['r'][6:] + e['r'][:6]
            if op in ('add_member_pt_load', 'add_member_dist_load'):
                sg = -1.0 if e['dir'][1] in flip else 1.0
                for a in ('P', 'w1', 'w2'):
                    if a in e: e[a] = e[a] * sg
            if op == 'add_member_pt_load': e['x'] = min(max(L - e['x'], 0.), L)
            if op == 'add_member_dist_load':
                e['w1'], e['w2'] = e['w2'], e['w1']
                e['x1'], e['x2'] = (None if e['x2'] is None else max(L - e['x2'], 0.)), (None if e['x1'] is None else L - e['x1'])
        out.append(e)
    return out


@generator
def symmetry(r, pid):
    mode = r.choice(['names', 'order', 'names', 'translate', 'rotate', 'rotate', 'reverse', 'reverse', 'all'])
    while True:
        f = gen.random_frame(r, nmax=4, inner=.25, springs=.3, sspr=.3, settle=.3, rel=.4, aux=(.6 if mode in ('rotate', 'reverse') else .3))
        if mode in ('rotate', 'all') and any(is_vertical(f, k) and f.members[k]['aux'] is None for k in f.members): continue
        break
    for _ in range(r.randint(2, 5)):
        x = r.random(); k = r.choice(list(f.members)); L = f.L(k)
        if x < .3: f.node_load()
        elif x < .6: f.pt_load(k, x=r.choice([L * r.uniform(.05, .95), L * r.uniform(.05, .95), 0., L]) if mode != 'reverse' else L * r.uniform(.05, .95))
        elif x < .93: f.dist_load(k)
        else: f.self_weight()
    f.make_combos(1)
    base, combos = split(f.ev)
    ev2 = list(base)
    nn = {n: n for n in f.nodes}; mm = {m: m for m in f.members}; ss = {s: s for s in f.springs}; xx = {x: x for x in f.aux}; mt = {m: m for m in f.mats}
    rot, sg, rev = None, None, []
    if mode in ('rotate', 'all'):
        if symmetric_supports(f) and r.random() < .7:
            th = r.uniform(.1, 6.2)
            ev2 = rotated_any(ev2, th)
            c, s = math.cos(th), math.sin(th)
        else:
            qd = r.randint(1, 3)
            ev2 = rotated(ev2, qd)
            c, s = [(1., 0.), (0., 1.), (-1., 0.), (0., -1.)][qd]
        rot = [c, -s]        # back to the original frame
    if mode in ('translate', 'all'):
        sh = [r.choice([0., 10., -7.5, 100.]) for _ in range(3)]
        ev2 = moved(ev2, lambda p: [p[d] + sh[d] for d in range(3)])
    if mode == 'reverse':
        rev = [k for k in f.members if r.random() < .7] or [list(f.members)[0]]
        ev2 = reversed_events(ev2, f, rev)
        sg = {}
        for k in rev:
            up = is_vertical(f, k) or f.members[k]['aux'] is not None
            sg[k] = {'VFy': 1. if up else -1., 'VFz': -1. if up else 1., 'NN': 1., 'TT': 1., 'MMz': -1. if up else 1., 'MMy': 1. if up else -1.,
                     'ddx': -1., 'ddy': -1. if up else 1., 'ddz': 1. if up else -1., 'rdy': -1. if up else 1., 'rdz': 1. if up else -1.}
    if mode in ('names', 'all'):
        def perm(keys, pool):
            keys = list(keys)
            new = r.choice([keys[:], ['%s%d' % (r.choice('zqA9_'), i) for i in range(len(keys))], [pool + str(i + 1) for i in range(len(keys))]])
            if new == keys: r.shuffle(new)
            return dict(zip(keys, new))
        nn, mm, ss, xx, mt = perm(f.nodes, 'N'), perm(f.members, 'M'), perm(f.springs, 'S'), perm(f.aux, 'AN'), perm(f.mats, 'mat')
        ev2 = rename_events(ev2, nn, mm, ss, xx, mt)
    if mode in ('order', 'all'):
        ev2 = shuffle_events(ev2, r)
    kinds = [r.choice(KINDS), r.choice(KINDS), r.choice(KINDS), r.choice(DKINDS), r.choice(DKINDS)]
    q1, q2 = {}, {}
    for k in f.members:
        P = generic_positions(f, r, k, 3); L = f.L(k)
        kk = kinds if k not in rev or curve(f, k) else kinds[:3]
        # at a concentrated action exactly at an end of the member either limit is an extreme (judged under P06)
        ext = [] if any(e['op'] == 'add_member_pt_load' and e['member'] == k and min(e['x'], L - e['x']) < 1e-6 * L for e in base) else [list(x) for x in KINDS]
        q1[k] = {'q': [[a, d, x] for a, d in kk for x in P], 'ext': ext, 'arr': []}
        q2[mm[k]] = {'q': [[a, d, (L - x if k in rev else x)] for a, d in kk for x in P], 'ext': ext, 'arr': []}
    ev = base + combos + [anl(r, q={'mem': q1, 'spr': not ss or ss == {s: s for s in ss}})]
    a = len(ev)
    ev += on(ev2 + combos, 2) + [dict(anl(r, q={'mem': q2, 'spr': True}), mod=2)]
    b = len(ev)
    parts = ['D', 'R', 'mem'] + (['spr'] if all(k == v for k, v in ss.items()) else [])
    for c in combos:
        ev.append(cmp_event(1, [{'ev': a, 'combo': c['name'], 'nm': {n: [n] for n in f.nodes}, 'mm': {m: m for m in f.members}},
                                {'ev': b, 'combo': c['name'], 'w': -1.0, 'nm': {n: [nn[n]] for n in f.nodes}, 'mm': mm, 'rot': rot, 'sg': sg}], parts))
    return ev


# P13 ---------------------------------------------------------------------------------------------------------------

@generator
def merge_frames(r, pid):
    """A frame with some nodes split into coincident copies is merged and must have the content and the results of the frame without copies."""
    f = gen.random_frame(r, nmax=4, inner=.2, springs=.5, sspr=.5, settle=.4, rel=.3)
    f.loads(r.randint(2, 5))
    f.make_combos(1)
    base, combos = split(f.ev)
    base = [x for e in base for x in ([e, dict(e)] if e['op'] in ('add_node_load', 'add_member_pt_load') and r.random() < .35 else [e])]
    tol = r.choice([None, None, .01, .0001])
    t = tol or .001
    shift = r.random() < .4
    copies = {}
    for n in f.nodes:
        if r.random() < .6: copies[n] = [n] + ['%s_c%d' % (n, i) for i in range(r.choice([1, 1, 2]))]
        else: copies[n] = [n]
    def pick(n): return r.choice(copies[n])
    out = []
    for e in base:
        e = dict(e); op = e['op']
        if op == 'add_node':
            new = []
            for i, c in enumerate(copies[e['name']]):
                d = [0., 0., 0.]
                if shift and i: d = [t * r.uniform(-.25, .25) for _ in range(3)]
                new.append(dict(e, name=c, X=e['X'] + d[0], Y=e['Y'] + d[1], Z=e['Z'] + d[2]))
            r.shuffle(new)
            out += new
            continue
        if op in ('add_member', 'add_spring'): e['i'], e['j'] = pick(e['i']), pick(e['j'])
        if op == 'def_support' and len(copies[e['node']]) > 1:
            cs = copies[e['node']]
            parts = [[False] * 6 for _ in cs]
            for d in range(6):
                if e['s'][d]:
                    for p in r.sample(parts, r.randint(1, len(parts))): p[d] = True
            out += [dict(e, node=c, s=p) for c, p in zip(cs, parts) if any(p)]
            continue
        if 'node' in e: e['node'] = pick(e['node'])
        out.append(e)
    # nodes must still be spread over the insertion order
    nodes = [e for e in out if e['op'] == 'add_node']; rest = [e for e in out if e['op'] != 'add_node']
    r.shuffle(nodes)
    ev = [e for e in rest if e['op'] == 'add_material'] + nodes + [e for e in rest if e['op'] != 'add_material'] + combos
    if r.random() < .3: ev.append(dict(anl(r), mayfail=True))
    ev.append({'op': 'merge_duplicate_nodes', 'tol': tol})
    if r.random() < .3: ev.append({'op': 'merge_duplicate_nodes', 'tol': tol})
    if not shift:
        q = f.queries(2, [r.choice(KINDS), r.choice(DKINDS)])
        ev.append(anl(r, q=q))
        a = len(ev)
        ev += on(base + combos, 2) + [dict(anl(r, q=q), mod=2)]
        b = len(ev)
        for c in combos:
            ev.append(cmp_event(2, [{'ev': b, 'combo': c['name'], 'nm': {n: [n] for n in f.nodes}}, {'ev': a, 'combo': c['name'], 'w': -1.0, 'nm': copies}], ['D', 'R', 'mem']))
    return ev


# P10 ---------------------------------------------------------------------------------------------------------------

def stable(f):
    return fem.well_conditioned(f, 1e8)


class History:
    """Edits, analyses and queries on a frame; the frame stays stable after every edit."""

    def __init__(self, r, f):
        self.r, self.f = r, f
        self.n = 0

    def edit(self):
        r, f = self.r, self.f
        self.n += 1
        import copy
        for _ in range(20):
            g = copy.deepcopy(f.__dict__)
            r0 = f.r
            mark = len(f.ev)
            try:
                ok = getattr(self, 'e_' + r.choice(['load', 'load', 'delloads', 'support', 'release', 'settle', 'sspring', 'spring', 'delspring', 'member', 'delmember', 'inner', 'delinner',
                                                    'prop', 'matprop', 'combo', 'delcombo', 'move', 'aux', 'newcombo', 'unsettle']))()
            except IndexError:
                ok = False
            if ok and stable(f): return
            f.__dict__.clear(); f.__dict__.update(g); f.r = r0
        return

    def e_load(self): self.f.loads(self.r.randint(1, 3)); return True
    def e_delloads(self): self.f.add(op='delete_loads'); self.f.loads(self.r.randint(1, 3)); return True

    def e_support(self):
        n = self.r.choice(list(self.f.nodes)); s = [self.r.random() < .6 for _ in range(6)]
        self.f.support(n, s); return True

    def e_release(self):
        k = self.r.choice(list(self.f.members)); rl = [False] * 12
        if self.r.random() < .7:
            for d in self.r.choice(gen.REL_CHOICES): rl[d] = True
        self.f.release(k, rl); return True

    def e_settle(self):
        c = [(n, d) for n, s in self.f.sup.items() for d in range(6) if s[d]]
        n, d = self.r.choice(c)
        self.f.settle(n, d, gen.sg(self.r, .001, .05)); return True

    def e_unsettle(self):
        c = [k for k in self.f.disp]
        n, d = self.r.choice(c)
        self.f.disp.pop((n, d))
        self.f.add(op='def_node_disp', node=n, dof=gen.DOFS[d], val=None); return True

    def e_sspring(self):
        n = self.r.choice(list(self.f.nodes)); self.f.support_spring(n, self.r.randrange(6), gen.lu(self.r, 1., 500.), self.r.choice([None, None, None, '+', '-'])); return True

    def e_spring(self):
        a, b = self.r.sample(list(self.f.nodes), 2)
        if math.dist(self.f.nodes[a], self.f.nodes[b]) < .3: return False
        self.f.spring('hs%d' % self.n, a, b, gen.lu(self.r, 5., 500.), **self.r.choice([{}, {}, {'to': True}, {'co': True}])); return True

    def e_delspring(self):
        k = self.r.choice(list(self.f.springs)); self.f.springs.pop(k)
        self.f.add(op='delete_spring', spring=k); return True

    def e_member(self):
        a, b = self.r.sample(list(self.f.nodes), 2)
        if math.dist(self.f.nodes[a], self.f.nodes[b]) < .3: return False
        self.f.member('hm%d' % self.n, a, b, **self.r.choice([{}, {}, {'to': True}, {'co': True}])); return True

    def e_delmember(self):
        if len(self.f.members) < 2: return False
        k = self.r.choice(list(self.f.members)); self.f.members.pop(k)
        self.f.add(op='delete_member', member=k); return True

    def e_inner(self):
        k = self.r.choice(list(self.f.members)); m = self.f.members[k]; t = self.r.uniform(.15, .85)
        a, b = self.f.nodes[m['i']], self.f.nodes[m['j']]
        self.f.node('hn%d' % self.n, [a[d] + t * (b[d] - a[d]) for d in range(3)])
        if self.r.random() < .5: self.f.node_load('hn%d' % self.n)
        return True

    def e_delinner(self):
        used = {x for m in list(self.f.members.values()) + list(self.f.springs.values()) for x in (m['i'], m['j'])}
        n = self.r.choice([n for n in self.f.nodes if n not in used])
        self.drop(n)
        return True

    def drop(self, n):
        f = self.f
        f.nodes.pop(n); f.sup.pop(n, None)
        for D in (f.sspr, f.disp):
            for k in [k for k in D if k[0] == n]: D.pop(k)
        f.add(op='delete_node', node=n)

    def e_prop(self):
        sec = {e['name'] for e in self.f.ev if e['op'] == 'add_member' and e['sec']}     # a section is the authority for its members
        k = self.r.choice([k for k in self.f.members if k not in sec]); a = self.r.choice(['A', 'Iy', 'Iz', 'J']); v = gen.lu(self.r, .5, 10.)
        self.f.members[k][a] = v
        self.f.add(op='set', kind='members', name=k, attr=a, val=v); return True

    def e_matprop(self):
        k = self.r.choice(list(self.f.mats)); a = self.r.choice(['E', 'G']); v = self.f.mats[k][a] * self.r.choice([.5, 2.])
        self.f.mats[k][a] = v
        self.f.add(op='set', kind='mats', name=k, attr=a, val=v); return True

    def e_combo(self):
        if not self.f.cases: return False
        nm = self.r.choice(list(self.f.combos)); cs = sorted(self.f.cases)
        self.f.combo(nm, {c: self.r.choice([1., 2., -1.]) for c in cs if self.r.random() < .7} or {cs[0]: 1.}, self.r.choice([None, ['a'], ['b']])); return True

    def e_newcombo(self):
        if not self.f.cases: return False
        cs = sorted(self.f.cases)
        self.f.combo('H%d' % self.n, {c: self.r.choice([1., 2., -1.]) for c in cs if self.r.random() < .7} or {cs[0]: 1.}, self.r.choice([None, ['a'], ['b']])); return True

    def e_delcombo(self):
        if len(self.f.combos) < 2: return False
        nm = self.r.choice(list(self.f.combos)); self.f.combos.pop(nm)
        self.f.add(op='del_combo', name=nm); return True

    def e_move(self):
        n = self.r.choice(list(self.f.nodes)); a = self.r.choice('XYZ')
        p = list(self.f.nodes[n]); p['XYZ'.index(a)] += self.r.choice([.5, -.25])
        if any(math.dist(p, q) < .4 for m, q in self.f.nodes.items() if m != n): return False
        used = any(x['aux'] for x in self.f.members.values() if n in (x['i'], x['j']))
        if used: return False
        if any(e['op'] in ('add_member_pt_load', 'add_member_dist_load') and e['member'] in self.f.members and n in (self.f.members[e['member']]['i'], self.f.members[e['member']]['j']) for e in self.f.ev): return False
        if any(e['op'] == 'add_member_self_weight' for e in self.f.ev): return False
        self.f.nodes[n] = tuple(p)
        self.f.add(op='set', kind='nodes', name=n, attr=a, val=p['XYZ'.index(a)]); return True

    def e_aux(self):
        k = self.r.choice(list(self.f.aux)); self.f.aux.pop(k)
        for m in self.f.members.values():
            if m['aux'] == k: m['aux'] = None
        self.f.add(op='delete_auxnode', aux=k); return True


@generator
def histories(r, pid):
    f = gen.random_frame(r, nmax=4, inner=.3, springs=.4, sspr=.3, settle=.3, rel=.4, aux=.3)
    f.loads(r.randint(1, 3))
    f.make_combos(r.randint(1, 3), tags=True)
    h = History(r, f)
    # one-way features in some of the models
    oneway = r.random() < .35
    def analysis(final=False, q=None):
        hw = r.choice(['general', 'linear', 'pdelta', 'general'])
        if final and oneway and hw == 'linear': hw = 'general'
        e = mk_analyze(hw, sparse=r.random() < .5, stab=r.random() < .8, tags=r.choice([None, None, None, ['a'], ['b']]), mayfail=True)
        if q is not None: e['q'] = q
        return e
    if oneway:
        for _ in range(5):
            h.n += 1
            r.choice([h.e_sspring, h.e_spring, h.e_member])()
    for q in range(r.randint(1, 4)):
        x = r.random()
        if x < .75:
            f.ev.append(analysis())
            if r.random() < .6:
                qq = f.queries(2, [r.choice(KINDS), r.choice(DKINDS)], [r.choice(KINDS)], r.choice([0, 3]))
                f.ev.append({'op': 'touch', 'combos': list(f.combos), 'q': qq, 'maytouch': True})
        for _ in range(r.randint(1, 3)):
            h.n += 1
            h.edit()
    q = f.queries(2, [r.choice(KINDS), r.choice(KINDS), r.choice(DKINDS)], [r.choice(KINDS), ('d', 'dy')], r.choice([0, 3]))
    q['spr'] = True
    fin = analysis(True, q)
    ev = f.ev + [fin]
    a = len(ev)
    if r.random() < .3: ev.append(dict(fin)); a = len(ev)
    ev.append({'op': 'rebuild', 'from': 1, 'mod': 2})
    ev.append(dict(fin, mod=2))
    b = len(ev)
    for c in f.combos:
        ev.append(dict(cmp_event(1, [{'ev': a, 'combo': c}, {'ev': b, 'combo': c, 'w': -1.0}], ['D', 'R', 'mem', 'spr'], 1e-7), sameok=True))
    return ev


# P19 ---------------------------------------------------------------------------------------------------------------

@generator
def queries_pure(r, pid):
    f = gen.random_frame(r, nmax=4, inner=.5, springs=.4, sspr=.3, settle=.3, rel=.4)
    f.loads(r.randint(2, 5))
    f.make_combos(r.randint(1, 3))
    an = mk_analyze(r.choice(['general', 'linear', 'pdelta', 'general']), sparse=r.random() < .5, stab=True, mayfail=True)
    ev = f.ev + [dict(an, q={'mem': {}, 'spr': True})]
    a = len(ev)
    cs = list(f.combos)
    for _ in range(r.randint(1, 4)):
        order = r.sample(cs, len(cs)) if r.random() < .5 else [r.choice(cs) for _ in range(3)]
        ev.append({'op': 'touch', 'combos': order, 'q': f.queries(2, [r.choice(KINDS + DKINDS) for _ in range(3)], [r.choice(KINDS + DKINDS[:3]) for _ in range(2)], r.choice([0, 3, 4])), 'maytouch': True})
    # a few queries, asked after all that and as the first thing on identical models
    L = []
    for mod in (2, 3):
        k = r.choice(list(f.members)); c = r.choice(cs)
        P = f.positions(k, 2)
        which = r.choice(['q', 'ext', 'arr'])
        kd = r.choice(KINDS + DKINDS) if which != 'ext' else r.choice(KINDS + DKINDS[:3])
        q = {'q': [], 'ext': [], 'arr': []}
        if which == 'q': q['q'] = [[kd[0], kd[1], x] for x in P]
        if which == 'ext': q['ext'] = [list(kd)]
        if which == 'arr': q['arr'] = [[kd[0], kd[1], r.choice([2, 4, 7])]]
        qq = {'mem': {k: q}, 'spr': True}
        ev.append({'op': 'observe', 'combos': [c], 'q': qq, 'needs': a})
        L.append((mod, c, qq, len(ev)))
    ev.append({'op': 'observe', 'combos': cs, 'q': {'mem': {}, 'spr': True}, 'needs': a})
    last = len(ev)
    ev.append({'op': 'project'})
    for c in cs:
        ev.append(cmp_event(1, [{'ev': a, 'combo': c}, {'ev': last, 'combo': c, 'w': -1.0}], ['D', 'R', 'spr'], 1e-12))
    for mod, c, qq, where in L:
        ev += on(f.ev, mod) + [dict(an, mod=mod, q={'mem': {}}), {'op': 'observe', 'combos': [c], 'q': qq, 'mod': mod, 'needs': a}]
        ev.append(cmp_event(1, [{'ev': where, 'combo': c}, {'ev': len(ev), 'combo': c, 'w': -1.0}], ['D', 'R', 'mem', 'spr'], 1e-11))
    return ev


# P18 ---------------------------------------------------------------------------------------------------------------

@generator
def loads_life(r, pid):
    f = gen.random_frame(r, nmax=4, inner=.3, springs=.3, sspr=.3, settle=.3, rel=.4)
    f.loads(r.randint(2, 5))
    if r.random() < .5: f.self_weight()
    f.make_combos(r.randint(1, 2))
    q = f.queries(2, [r.choice(KINDS), r.choice(DKINDS)], [r.choice(KINDS)], r.choice([0, 3]))
    ev = [dict(e, proj=True) if 'load' in e['op'] or 'weight' in e['op'] else e for e in f.ev] + [{'op': 'cases'}, anl(r, q=q), {'op': 'delete_loads', 'proj': True}, {'op': 'cases'},
          {'op': 'observe', 'combos': list(f.combos), 'q': q, 'expect': 'empty'}, anl(r, q=q)]
    mark = len(f.ev)
    if r.random() < .7:
        f.cases = set(CASE for CASE in f.cases)
        f.loads(r.randint(1, 2))
        ev += [dict(e, proj=True) for e in f.ev[mark:]] + [{'op': 'cases'}, anl(r, q=q)]
    return {'events': ev, 'props': ['P18', 'P01', 'P02', 'P05']}


# P08, P09, P14 ------------------------------------------------------------------------------------------------------

def add_oneway(f, r, n, kinds=('sup', 'mem', 'spr'), loaded=.15):
    """Adds up to n one-way parts; loads go on one-way members only sometimes."""
    ns = list(f.nodes)
    got = 0
    for q in range(4 * n):
        if got >= n: break
        k = r.choice(kinds)
        if k == 'sup':
            nm, d = r.choice(ns), r.choice([0, 1, 2, 0, 1, 2, 3, 4, 5])
            if f.sup.get(nm, [0] * 6)[d] or (nm, d) in f.disp: continue
            f.support_spring(nm, d, gen.lu(r, 50., 20000.), r.choice('+-'))
        else:
            a, b = r.sample(ns, 2)
            if math.dist(f.nodes[a], f.nodes[b]) < .5: continue
            way = r.choice([{'to': True}, {'co': True}])
            if k == 'mem':
                f.member('O%d' % q, a, b, **way)
                if r.random() < .5:      # truss bars
                    rl = [False] * 12
                    for d in r.choice([[4, 5, 10, 11], [5, 11], [4, 5, 9, 10, 11]]): rl[d] = True
                    f.release('O%d' % q, rl)
            else:
                f.spring('Q%d' % q, a, b, gen.lu(r, 50., 20000.), **way)
        got += 1
    f.quiet = [k for k, m in f.members.items() if (m['to'] or m['co']) and r.random() > loaded]


def load_active(f, r, n):
    """Loads that mostly avoid the one-way members"""
    for _ in range(n):
        k = r.choice([k for k in f.members if k not in f.quiet] or list(f.members))
        q = r.random()
        if q < .5: f.node_load()
        elif q < .7: f.pt_load(k)
        elif q < .95: f.dist_load(k)
        else: f.self_weight()


@generator
def oneway(r, pid):
    """Frames whose activation iteration takes a few rounds, several combinations, one to three analyses."""
    for attempt in range(200):
        f = gen.random_frame(r, nmax=4, inner=.25, springs=.2, sspr=.2, settle=.15, rel=.3, extra=1)
        add_oneway(f, r, r.randint(1, 4))
        load_active(f, r, r.randint(1, 4))
        f.make_combos(r.randint(1, 3), tags=r.random() < .4)
        pd = r.random() < .35
        w = [fem.path(f, c['factors'], pd) for c in f.combos.values()]
        if any(x[0] in ('edge', 'unstable') for x in w): continue
        if max(x[1] for x in w) < (3 if pd else 2) and r.random() < .85: continue
        break
    else:
        return None
    q = f.queries(1, [r.choice(KINDS)], [r.choice(KINDS)], r.choice([0, 2]))
    q['spr'] = True
    ev = list(f.ev)
    hw = 'pdelta' if pd else 'general'
    def an(**kw):
        return mk_analyze(hw, sparse=r.random() < .5, stab=r.random() < .6, q=q, **kw)
    x = r.random()
    if x < .2:
        ev.append(an(kw={'max_iter': r.choice([1, 2, 3])}))
    elif x < .45:
        ev += [an(tags=['a']), an()] if any(c['tags'] for c in f.combos.values()) else [an(), an()]
    elif x < .6:       # other loads on the same model
        ev.append(an())
        f.ev = []
        f.add(op='delete_loads')
        load_active(f, r, r.randint(1, 3))
        ev += f.ev + [an()]
    else:
        ev.append(an())
    if r.random() < .3:
        ev.append(mk_analyze('general' if pd else 'pdelta', sparse=r.random() < .5, q=q))
    return ev


def scaled_for_buckling(f, r, lo=.02, hi=.6):
    """A factor on the loads that brings the frame to a random fraction of its buckling load (None when it does not buckle)"""
    import numpy as np
    c = next(iter(f.combos.values()))['factors']
    S = fem.solve_frame(f, c)
    if S is None: return None
    fr_ = fem.free(f)
    if not fr_: return None
    K = fem.assemble(f)[np.ix_(fr_, fr_)]
    Kg = fem.assemble(f, geo=S[2])
    if Kg is None: return None
    Kg = Kg[np.ix_(fr_, fr_)] - K
    try:
        w = np.linalg.eigvals(np.linalg.solve(K, -Kg))
    except Exception:
        return None
    w = max(w.real)
    return None if w < 1e-4 else float('%.3g' % (r.uniform(lo, hi) / w))


@generator
def pdelta(r, pid):
    for attempt in range(100):
        f = gen.random_frame(r, nmax=4, inner=.35, springs=.2, sspr=.25, settle=.2, rel=.45, shear_rel=False, aux=.2)
        for k in f.members:
            if r.random() < .12 and not any(f.members[k]['rel']):
                rl = [False] * 12; rl[r.choice([0, 6])] = True; f.release(k, rl)
        if not stable(f): continue
        f.loads(r.randint(1, 4))
        f.make_combos(1, tags=r.random() < .3)
        s = scaled_for_buckling(f, r)
        if s is None and r.random() < .7: continue
        s = s or 1.0
        break
    else:
        return None
    base = f.combos['C1']['factors']
    ev = [e for e in f.ev if e['op'] != 'add_load_combo']
    for q in range(r.randint(1, 3)):
        ev.append({'op': 'add_load_combo', 'name': 'C%d' % (q + 1), 'factors': {k: v * s * r.choice([1., 1., .5, -1., .1]) for k, v in base.items()}, 'tags': r.choice([None, ['a']])})
    qs = {'mem': {}, 'spr': True}
    def an(hw=None, **kw):
        return mk_analyze(hw or 'pdelta', sparse=r.random() < .5, stab=r.random() < .6, q=qs, **kw)
    x = r.random()
    ev.append(an())
    if x < .25: ev.append(dict(an(), sparse=not ev[-1]['sparse']))
    elif x < .5: ev.append(an('general'))
    elif x < .6: ev += [an('general'), an()]
    elif x < .7: ev.append(an('linear'))
    elif x < .8: ev.append(an(tags=['a']))
    return ev


EXACT = [.5, 1., 2., 4.]


def failing(ev, r, **kw):
    """The model of ev must be rejected by each kind of analysis (some of them tried), also after an accepted one"""
    out = list(ev)
    for _ in range(r.randint(1, 3)):
        out.append(mk_analyze(r.choice(['general', 'linear', 'pdelta']), sparse=r.random() < .5, stab=r.random() < .5, **kw))
    return out


@generator
def unstable_node(r, pid):
    """A stable frame and one node with no stiffness in some direction"""
    f = gen.random_frame(r, nmax=4, inner=.2, springs=.2, sspr=.2, settle=.1, rel=.3)
    f.loads(r.randint(1, 3))
    f.make_combos(r.randint(1, 2), tags=r.random() < .3)
    ev = []
    if r.random() < .3:
        f.add(**mk_analyze('general', sparse=r.random() < .5, q={'mem': {}}))
    nm = r.choice(list(f.nodes)); p = f.nodes[nm]
    k = r.choice(['orphan', 'pin', 'axis', 'spring', 'unsupport', 'delete', 'collapse'])
    if k == 'orphan':
        f.node('z', [p[0] + 20., p[1] + r.choice([0., 1.]), p[2] - 3.])
        if r.random() < .5: f.support('z', [False] * 6 if r.random() < .3 else r.choice([[True] * 3 + [False] * 3, [True, False, True, True, True, True]]))
    elif k == 'pin':      # a bar whose far end rotates freely
        f.node('z', [p[0] + 20., p[1] + r.choice([0., 1.5]), p[2] + r.choice([0., 2.])])
        f.member('Mz', nm, 'z')
        rl = [False] * 12
        for d in r.choice([[9, 10, 11], [9, 10, 11, 3][:3]]): rl[d] = True
        f.release('Mz', rl)
    elif k == 'axis':     # an axis-aligned bar that offers nothing about one axis at its far end
        a = r.choice([0, 1, 2]); v = [0., 0., 0.]; v[a] = r.choice([20., -20.])
        f.node('z', [p[d] + v[d] for d in range(3)])
        f.member('Mz', nm, 'z')
        rl = [False] * 12; rl[r.choice([6, 9, 10, 11, 7, 8])] = True
        f.release('Mz', rl)
    elif k == 'spring':   # a node held by a spring along one axis only
        a = r.choice([0, 1, 2]); v = [0., 0., 0.]; v[a] = 20.
        f.node('z', [p[d] + v[d] for d in range(3)])
        f.spring('Sz', nm, 'z', gen.lu(r, 5., 500.))
    elif k == 'unsupport':
        f.node('z', [p[0] + 20., p[1], p[2] - 3.])
        f.support('z', [True] * 6)
        ev0 = [mk_analyze('general', sparse=r.random() < .5, q={'mem': {}})]
        f.ev += ev0
        s = [True] * 6; s[r.randrange(6)] = False
        f.support('z', s)
    elif k == 'delete':   # a node left without its only member
        f.node('z', [p[0] + 20., p[1], p[2] - 3.])
        f.member('Mz', nm, 'z')
        f.add(**mk_analyze('general', sparse=r.random() < .5, q={'mem': {}}))
        f.add(op='delete_member', member='Mz')
    elif k == 'collapse': # a node held by a one-way bar that drops out
        way = r.choice(['to', 'co'])
        f.node('z', [p[0] + 20., p[1], p[2]])
        f.member('Mz', nm, 'z', **{way: True})
        f.add(op='add_node_load', node='z', dir='FX', P=(-30. if way == 'to' else 30.), case=f.case())
        c = f.ev[-1]['case']
        f.combo('Cz', {c: 1.0})
        out = list(f.ev)
        for _ in range(r.randint(1, 2)): out.append(mk_analyze(r.choice(['general', 'pdelta']), sparse=r.random() < .5, stab=r.random() < .5))
        return out
    return failing(f.ev, r)


@generator
def mechanism(r, pid):
    """Two-node axis-aligned structures with exactly representable stiffness that move freely as a whole or at a hinge.
    Their elimination meets an exact zero, so they must be rejected."""
    f = gen.Frame(r)
    E, G = 1024., 512.
    f.mats['m'] = dict(E=E, G=G, nu=.25, rho=.5)
    f.add(op='add_material', name='m', E=E, G=G, nu=.25, rho=.5)
    a = r.choice([0, 1, 2]); L = r.choice([1., 2., 4.]); p = [r.choice([0., 1., -2.]) for _ in range(3)]; q = list(p); q[a] += L * r.choice([1, -1])
    f.node('a', p); f.node('b', q)
    f.member('M', *r.choice([('a', 'b'), ('b', 'a')]), mat='m', A=r.choice(EXACT), Iy=r.choice(EXACT), Iz=r.choice(EXACT), J=r.choice(EXACT))
    k = r.choice(['slide', 'slide', 'spin', 'free', 'swing'])
    other = [d for d in range(3) if d != a]
    s = [True] * 6; t = [False] * 6
    if k == 'slide': s[r.choice([0, 1, 2])] = False
    elif k == 'spin': s[3 + a] = False
    elif k == 'swing': s[3 + r.choice(other)] = False
    elif k == 'free': s = [False] * 6
    f.support('a', s)
    f.node_load('b', 'Case 1')
    return failing(f.ev, r, exact=True)


@generator
def stable_accepted(r, pid):
    f = _frame(r, (1, 3), (1, 2), nmax=4, inner=.3, springs=.4, sspr=.4, settle=.3)
    return f.ev + [mk_analyze(h, sparse=r.random() < .5, stab=r.random() < .6) for h in r.sample(['general', 'linear', 'pdelta'], 2)]


# P15, P16 -----------------------------------------------------------------------------------------------------------

def mesh_ground(r, f):
    """Entities that are in the model before a mesh: some bear the names a mesh would use"""
    for q in range(r.randint(1, 2)): f.material()
    pool = ['N1', 'N2', 'N3', 'N5', 'N9', 'N12', 'a', 'b']
    ns = r.sample(pool, r.choice([0, 0, 2, 3, 5]))
    for n in ns: f.node(n, [r.uniform(-20, -10), r.uniform(-20, 20), r.uniform(-20, 20)])
    if len(ns) >= 2 and r.random() < .6: f.member(r.choice(['M1', 'x']), ns[0], ns[1])
    if len(ns) >= 2 and r.random() < .3: f.spring('S1', ns[0], ns[1], 5.)
    if r.random() < .35:
        ps = ['c%d' % q for q in range(4)]
        for n, p in zip(ps, [(-30., 0., 0.), (-28., 0., 0.), (-28., 2., 0.), (-30., 2., 0.)]): f.node(n, p)
        for nm in r.sample(['Q1', 'Q2', 'Q4', 'Q7'], 2): f.add(op='add_quad', name=nm, i=ps[0], j=ps[1], m=ps[2], n=ps[3], t=.5, mat='Mat0', kx=1., ky=1.)
        for nm in r.sample(['R1', 'R2', 'R5', 'Q3'], r.randint(0, 2)): f.add(op='add_plate', name=nm, i=ps[0], j=ps[1], m=ps[2], n=ps[3], t=.5, mat='Mat0', kx=1., ky=1.)
    return ns


def mesh_names(r, a, rect):
    """Start names, and which arguments to leave to their defaults"""
    omit = []
    a['start_node'] = r.choice([None, None, 'N1', 'N%d' % r.randint(2, 30)])
    a['start_element'] = r.choice([None, None, ('R' if rect else 'Q') + str(r.choice([1, 2, 5, 40]))])
    for k, v in (('start_node', None), ('start_element', None), ('kx_mod', 1.), ('ky_mod', 1.), ('x_control', None), ('y_control', None), ('origin', [0., 0., 0.]), ('plane', 'XY'), ('axis', 'Y'),
                 ('element_type', 'Quad'), ('num_elements', None)):
        if k in a and r.random() < .25:
            a[k] = v; omit.append(k)
    return omit


def rect_args(r, f, limit=48, quantum=None):
    """Arguments of a rectangle mesh with few elements"""
    while True:
        w, h = (r.choice([1., 2., 3., 4.5, 6., 10.]), r.choice([1., 2., 3., 4.5, 6., 10.])) if r.random() < .6 else (gen.lu(r, .8, 12., 4), gen.lu(r, .8, 12., 4))
        s = r.choice([max(w, h) / r.choice([1, 2, 3, 4, 5, 2.5, 3.3]), min(w, h) / r.choice([1, 2, 1.7]), w * 1.3 + h, .5, 1.])
        ctl = lambda d: [r.choice([d * r.choice([.25, .5, .75, 1 / 3., 2 / 3., .1]), r.uniform(.05, .95) * d, 0., d]) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        xc, yc = r.choice([None, ctl(w)]), r.choice([None, ctl(h)])
        if xc and r.random() < .2: xc.append(xc[0])
        nx, ny = math.ceil(w / s) + len(xc or []), math.ceil(h / s) + len(yc or [])
        if nx * ny <= limit: break
    a = dict(mesh_size=float(s), width=w, height=h, thickness=gen.lu(r, .05, .9), material_name=r.choice(list(f.mats)), kx_mod=r.choice([1., .35, .7]), ky_mod=r.choice([1., .5]),
             origin=r.choice([[0., 0., 0.], [r.uniform(-5, 30), r.uniform(-5, 30), r.uniform(-5, 30)], [3., -2., 7.5]]), plane=r.choice(['XY', 'YZ', 'XZ']), x_control=xc, y_control=yc,
             element_type=r.choice(['Quad', 'Rect']))
    omit = mesh_names(r, a, a['element_type'] == 'Rect')
    if 'element_type' in omit: a['start_element'] = None
    for k in ('x_control', 'y_control'):
        if a[k] is None: a[k] = []; omit.append(k) if k not in omit else None
    return a, sorted(set(omit))


def openings(r, w, h, n):
    """Openings that leave something of the rectangle"""
    ops = []
    for _ in range(n):
        for t in range(20):
            gx = [0., .2, .25, 1 / 3., .5, .6, 2 / 3., .75, 1.] if r.random() < .7 else [0.] + sorted(r.uniform(.05, .95) for _ in range(4)) + [1.]
            i, j = sorted(r.sample(range(len(gx)), 2)); k, l = sorted(r.sample(range(len(gx)), 2))
            o = (gx[i] * w, gx[k] * h, (gx[j] - gx[i]) * w, (gx[l] - gx[k]) * h)
            if (gx[j] - gx[i]) * (gx[l] - gx[k]) < .5 and covered(ops + [o], w, h) < .85 * w * h:
                ops.append(o); break
    return ops


def covered(ops, w, h):
    xs = sorted({0., w} | {o[0] for o in ops} | {o[0] + o[2] for o in ops}); ys = sorted({0., h} | {o[1] for o in ops} | {o[1] + o[3] for o in ops})
    return sum((xs[i + 1] - xs[i]) * (ys[j + 1] - ys[j]) for i in range(len(xs) - 1) for j in range(len(ys) - 1)
               if any(o[0] <= (xs[i] + xs[i + 1]) / 2 <= o[0] + o[2] and o[1] <= (ys[j] + ys[j + 1]) / 2 <= o[1] + o[3] for o in ops))


def mesh_size_ok(a, ops, limit=64):
    """Roughly the number of elements of a rectangle mesh"""
    n = 1
    for d, c, q in ((a['width'], a['x_control'], 0), (a['height'], a['y_control'], 1)):
        xs = sorted({0., d} | set(c or []) | {o[q] for o in ops} | {o[q] + o[2 + q] for o in ops})
        n *= sum(math.ceil(max(1, (xs[i + 1] - xs[i]) / a['mesh_size'])) for i in range(len(xs) - 1))
    return n <= limit


def mesh_make(r, k, how=None):
    """The event that generates mesh k"""
    if (how or r.random()) < .5: return {'op': 'generate', 'mesh': k}
    return mk_analyze('general', sparse=r.random() < .5, stab=r.random() < .5, mayfail=True)


@generator
def rect_meshes(r, pid):
    f = gen.Frame(r)
    mesh_ground(r, f)
    names, apart, dup = [], True, False
    for q in range(r.choice([1, 1, 2, 2])):
        a, omit = rect_args(r, f)
        if names:
            if 'origin' in omit: omit.remove('origin')
            a['origin'] = [a['origin'][0] + 40., a['origin'][1] + 3., a['origin'][2] + 40.]
        if names and r.random() < .4:      # next to the previous one
            apart = False
            b = f.ev[[i for i, e in enumerate(f.ev) if e['op'] == 'add_mesh'][-1]]['args']
            a.update(plane=b['plane'], origin=[b['origin'][d] + (b['width'] if d == (2 if b['plane'] == 'YZ' else 0) else 0.) for d in range(3)])
            omit = [o for o in omit if o not in ('plane', 'origin')]
        arg = r.choice(['mesh', 'wall', 'MSH1', 'MSH2', None, None] + names[:1])
        if q == 0 and r.random() < .35:    # another node at a corner of the mesh
            dup = True
            f.node('dup', [a['origin'][0] + (a['width'] if a['plane'] != 'YZ' else 0.), a['origin'][1], a['origin'][2] + (a['width'] if a['plane'] == 'YZ' else 0.)])
            f.support('dup', [True, True, False, False, True, False])
        e = f.add(op='add_mesh', kind='rect', name=arg, args=a, omit=omit)
        if arg is not None and (arg in names or (arg[:3] == 'MSH' and names)): continue
        k = arg if arg is not None else '$%d' % (len(f.ev) - 1)
        names.append(k)
        ops = openings(r, a['width'], a['height'], r.choice([0, 0, 1, 1, 2, 3]))
        while ops and not mesh_size_ok(a, ops): ops.pop()
        if ops and r.random() < .2:
            late = [ops.pop()]
        else:
            late = []
        for i, o in enumerate(ops): f.add(op='add_opening', mesh=k, name='o%d' % i, x=o[0], y=o[1], w=o[2], h=o[3])
        x = r.random()
        if x < .7: f.ev.append(mesh_make(r, k))
        if r.random() < .3: f.node(r.choice(['N7', 'N8', 'z%d' % q]) if not any(n in f.nodes for n in ('N7', 'N8')) and x >= .7 and not names[1:] else 'z%d' % q, [-50., q * 1.0, 0.])
        if late and x < .7:
            o = late[0]
            f.add(op='add_opening', mesh=k, name='late', x=o[0], y=o[1], w=o[2], h=o[3])
            f.ev.append(mesh_make(r, k))
        if r.random() < .2 and x < .7: f.add(op='generate', mesh=k)
    f.ev.append(mk_analyze('general', sparse=True, stab=r.random() < .5, mayfail=True))
    ev = f.ev
    x = r.random()
    if dup and r.random() < .7: ev.append({'op': 'rename'}) if apart else None
    if x < .3 or dup: ev.append({'op': 'merge_duplicate_nodes', 'tol': r.choice([None, .001, 1e-6])})
    elif not apart: return ev
    if .15 < x < .5: ev.append({'op': 'rename'})
    if .35 < x < .5 and names: ev.append({'op': 'generate', 'mesh': names[0]})
    if .4 < x < .5: ev.append({'op': 'rename'})
    return ev


@generator
def fine_meshes(r, pid):
    """Meshes of many elements, in units that make the numbers large: roundoff accumulates"""
    f = gen.Frame(r)
    f.material()
    u = r.choice([1., 304.8, 1000.])
    c = lambda: [r.choice([0., u * r.uniform(-30, 30)]) for _ in range(3)]
    a = dict(thickness=gen.lu(r, .05, .9) * u, material_name='Mat0', kx_mod=1., ky_mod=1., origin=c(), plane=r.choice(['XY', 'YZ', 'XZ']), x_control=[], y_control=[],
             element_type=r.choice(['Quad', 'Rect']), start_node=None, start_element=None)
    ops = []
    if r.random() < .45:
        n = r.choice([r.randint(60, 200), r.randint(200, 420)])
        w = r.choice([u * r.randint(5, 40), gen.lu(r, 5., 40., 4) * u])
        s = w / (n - r.choice([0, .3, r.random()]))
        h = s * r.uniform(.4, .95)
        for _ in range(r.choice([0, 0, 1, 2])): a['x_control'].append(w * r.choice([1 / 3., 1 / 7., r.random()]))
    else:
        w, h = u * r.randint(2, 40) / r.choice([1, 3, 7]), u * r.randint(2, 40) / r.choice([1, 3, 7])
        s = max(w, h) / r.uniform(4, 14)
        while w * h / s / s > 90: s *= 1.2
        g = lambda: sorted([r.choice([1 / 3., 2 / 3., 1 / 7., 3 / 7., .1, .3, r.random()]), r.choice([.9, .7, .37, r.random()])])
        for _ in range(r.choice([1, 1, 2])):
            (x0, x1), (y0, y1) = g(), g()
            if x1 - x0 > .05 and y1 - y0 > .05: ops.append((w * x0, h * y0, w * (x1 - x0), h * (y1 - y0)))
    w, h, s = float(w), float(h), float(s)
    if r.random() < .5: w, h, a['x_control'] = h, w, []; ops = [(y, x, d, b) for x, y, b, d in ops]
    a.update(width=w, height=h, mesh_size=s)
    if covered(ops, w, h) > .85 * w * h or not mesh_size_ok(a, ops, 460): ops = []
    f.add(op='add_mesh', kind='rect', name='mesh', args=a, omit=['start_node', 'start_element'])
    for i, o in enumerate(ops): f.add(op='add_opening', mesh='mesh', name='o%d' % i, x=o[0], y=o[1], w=o[2], h=o[3])
    f.add(op='generate', mesh='mesh')
    return f.ev


TIGHT = [(2541, 7960, 723.6363636363636, 22716.0, 28424.2), (9417, 5706, 553.9411764705883, -1303.1, 15456.0), (11393, 2372, 632.9444444444445, 5073.0, 22437.1),
         (9607, 6967, 640.4666666666667, 7946.5, 16742.2), (4010, 9570, 2392.5, 10429.5, -25474.3)]


def tight_opening(k):
    """Meshes with an opening whose edges coincide with element edges only up to roundoff"""
    def g(r, pid):
        w, h, s, ox, oy = TIGHT[k]
        f = gen.Frame(r)
        f.material()
        a = dict(mesh_size=s, width=float(w), height=float(h), thickness=100., material_name='Mat0', kx_mod=1., ky_mod=1., origin=[ox, oy, 0.], plane='XY', x_control=[], y_control=[],
                 element_type=r.choice(['Quad', 'Rect']), start_node=None, start_element=None)
        f.add(op='add_mesh', kind='rect', name='mesh', args=a, omit=['start_node', 'start_element'])
        f.add(op='add_opening', mesh='mesh', name='o', x=w / 3, y=h / 7, w=w / 3.1, h=h / 2.3)
        f.add(op='generate', mesh='mesh')
        return f.ev
    return g


for _k in range(len(TIGHT)): GENS['tight_opening_%d' % _k] = tight_opening(_k)


@generator
def round_meshes(r, pid):
    f = gen.Frame(r)
    mesh_ground(r, f)
    names = []
    for q in range(r.choice([1, 1, 2])):
        kind = r.choice(['annulus', 'annulus', 'frustrum', 'cylinder', 'cylinder'])
        a = dict(thickness=gen.lu(r, .05, .9), material_name=r.choice(list(f.mats)), kx_mod=r.choice([1., .35]), ky_mod=r.choice([1., .5]),
                 origin=r.choice([[0., 0., 0.], [r.uniform(-5, 30), r.uniform(-5, 30), r.uniform(-5, 30)], [3., -2., 7.5]]), axis=r.choice(['X', 'Y', 'Z']))
        if kind == 'cylinder':
            rad = gen.lu(r, .5, 8.); n = r.randint(3, 12)
            a.update(radius=rad, height=gen.lu(r, .5, 10.), num_elements=r.choice([None, n]), element_type=r.choice(['Quad', 'Rect']))
            a['mesh_size'] = 2 * math.pi * rad / r.uniform(2.8, 12.4)
            if a['height'] / a['mesh_size'] > 6: a['height'] = a['mesh_size'] * r.uniform(.4, 5.)
        else:
            r1 = gen.lu(r, .4, 5.)
            n = r.uniform(3.05, 9.5)
            r2 = r1 * r.choice([1.2, 1.7, 2., 3., r.uniform(1.1, 6.)])
            s = 2 * math.pi * r1 / n
            while (r2 - r1) / s > 6: r2 = r1 + (r2 - r1) / 2
            if r.random() < .45:    # rings that outgrow three times the mesh size
                s, n = 2 * math.pi * r1 / 3.2, 3
                r2 = r1 * r.uniform(3.2, 5.)
            a['mesh_size'] = s
            if kind == 'annulus': a.update(outer_radius=r2, inner_radius=r1)
            else: a.update(large_radius=r2, small_radius=r1, height=gen.lu(r, .3, 8.) * r.choice([1, 1, 1, -1]))
        omit = mesh_names(r, a, a.get('element_type') == 'Rect')
        if 'element_type' in omit: a['start_element'] = None
        if names:
            if 'origin' in omit: omit.remove('origin')
            a['origin'] = [a['origin'][0] + 60., a['origin'][1] + 3., a['origin'][2] + 60.]
        arg = r.choice(['mesh', 'tank', 'MSH1', 'MSH2', None, None] + names[:1])
        f.add(op='add_mesh', kind=kind, name=arg, args=a, omit=sorted(set(omit)))
        if arg is not None and (arg in names or (arg[:3] == 'MSH' and names)): continue
        k = arg if arg is not None else '$%d' % (len(f.ev) - 1)
        names.append(k)
        x = r.random()
        if x < .6: f.ev.append(mesh_make(r, k))
        if r.random() < .15: f.add(op='generate', mesh=k)
        if r.random() < .2: f.node('z%d' % q, [-50., q * 1.0, 0.])
    f.ev.append(mk_analyze('general', sparse=True, stab=r.random() < .5, mayfail=True))
    ev = f.ev
    x = r.random()
    if x < .2: ev.append({'op': 'merge_duplicate_nodes', 'tol': None})
    if .1 < x < .4: ev.append({'op': 'rename'})
    if .25 < x < .4 and names: ev.append({'op': 'generate', 'mesh': names[0]})
    return ev


MECH_ASSUME = ['The oracle is exact statics in 80-digit arithmetic (spec/Num.java overrides the operators defined in spec/Num.tla); TLC and Java BigDecimal are trusted.',
               'Stiffnesses, lengths and loads stay within a few orders of magnitude and frames are well conditioned (< 1e7), so rounding stays below the tolerances (1e-8 of the terms involved).']



def model_run(group, quick, thorough, limit=(1500, 12000), replay='model'):
    """A TLC exploration of the modelling calls whose transitions are replayed: histories of at most quick/thorough calls."""
    return dict(module='MC_Model', label='MC_Model/' + group, replay=replay, workers=1, env={t: {'MC_GROUP': group, 'MC_LEN': str(n)} for t, n in (('quick', quick), ('thorough', thorough))},
                limit={'quick': limit[0], 'thorough': limit[1]})


def oneway_run(family, quick, thorough):
    """A TLC exploration of the activation walks of every quick-th/thorough-th structure of a family; the structures are analysed with the code."""
    return dict(module='MC_OneWay', label='MC_OneWay/' + family, replay='oneway', env={t: {'MC_FAMILY': family, 'MC_STRIDE': str(n), 'MC_OFFSET': '$SEED'} for t, n in (('quick', quick), ('thorough', thorough))})


CONFIG = {
    'P01': dict(note='Random space frames (members with releases, auxiliary nodes, internal nodes, springs, support springs, settlements, all load kinds); every reaction of every combination is recomputed by the specification from the reported displacements and compared, and the global balance is checked exactly.', gens=[('frame_nodal', 260)], assumptions=MECH_ASSUME, rule='random frames'),
    'P02': dict(note='Random space frames; the specification recomputes the equilibrium residual of the reported displacements exactly at every free degree of freedom (a certificate: for a stable frame only the true solution passes).', gens=[('frame_nodal', 260)], assumptions=MECH_ASSUME, rule='random frames'),
    'P03': dict(note='Random frames analysed with all combinations, single cases, subsets, other orders and tag selections; weighted sums of the recorded results must vanish.', gens=[('superpose', 160)], assumptions=MECH_ASSUME, rule=''),
    'P04': dict(note='Pairs of recorded analyses with and without idle nodes on member lines must agree, and frames with things attached to internal nodes satisfy the exact equilibrium certificate.', gens=[('subdivide', 160), ('attached', 80)], assumptions=MECH_ASSUME, rule=''),
    'P05': dict(note='Random frames; every queried section force is compared with the exact section resultant computed by the specification.', gens=[('frame_sections', 260)], assumptions=MECH_ASSUME, rule='random frames'),
    'P06': dict(note='Random frames; maxima/minima against exact suprema/infima of the piecewise polynomials, arrays against point queries.', gens=[('frame_extremes', 200)], assumptions=MECH_ASSUME, rule='random frames'),
    'P07': dict(note='Random frames; deflections against the exact Euler-Bernoulli curve through the reported nodal displacements.', gens=[('frame_sections', 260)], assumptions=MECH_ASSUME, rule='random frames'),
    'P08': dict(note='Random frames with one-way members, springs and support springs, several combinations and repeated analyses: the activation state shown by the results must be admissible, in exact equilibrium, and reachable in the specification\'s activation walk.', gens=[('oneway', 170)], mc=[oneway_run('chain', 120, 20), oneway_run('beam', 180, 25), oneway_run('panel', 30, 4)], assumptions=MECH_ASSUME, rule='random frames with one-way parts'),
    'P09': dict(note='Random frames loaded to a fraction of buckling: exact equilibrium residual of the reported displacements with elastic plus geometric stiffness for the exact first-order axial forces.', gens=[('pdelta', 200)], assumptions=MECH_ASSUME, rule='random frames near buckling'),
    'P14': dict(note='Frames with a node or as a whole without stiffness must be rejected, stable ones accepted with finite results.', gens=[('unstable_node', 220), ('mechanism', 80), ('stable_accepted', 100)], assumptions=MECH_ASSUME, rule=''),
    'P10': dict(note='Random histories of edits, analyses (general, linear, P-Delta) and queries; the final analysis must equal that of a freshly built model of the same content.', gens=[('histories', 200)], mc=[model_run('history', 3, 3, (600, 6000), 'history')], assumptions=MECH_ASSUME, rule=''),
    'P11': dict(note='Pairs of recorded analyses of renamed, reordered, translated, rotated and direction-reversed frames must agree.', gens=[('symmetry', 240)], assumptions=MECH_ASSUME, rule=''),
    'P12': dict(note='Random edit histories; after every call the full content of the real model is compared with the state of the specification.', gens=[('edits', 400)], mc=[model_run('names', 3, 4), model_run('refs', 3, 4), model_run('supports', 3, 4)], assumptions=[], rule='random edit histories; all bounded histories of small alphabets'),
    'P13': dict(note='Frames with coincident nodes; the merge is judged by the content relation of the specification and by the results of the frame without copies.', gens=[('merge_frames', 200)], mc=[model_run('merges', 3, 4)], assumptions=[], rule=''),
    'P15': dict(note='Random rectangle meshes (sizes, planes, origins, control lines, openings) generated directly or by an analysis in models with other entities, regenerated, renamed and merged; names, properties and geometry are judged by spec/Meshes.tla.', gens=[('rect_meshes', 400), ('fine_meshes', 100)], curated=['tight_opening_%d' % k for k in range(len(TIGHT))], assumptions=[], rule='random rectangle meshes'),
    'P16': dict(note='Random annulus, frustum and cylinder meshes about all axes in models with other entities, regenerated, renamed and merged; names, properties and geometry are judged by spec/Meshes.tla.', gens=[('round_meshes', 500)], assumptions=[], rule='random round meshes'),
    'P17': dict(note='Single elements with prescribed corners, patches with prescribed boundaries, mixed and meshed models: element equilibrium, rigid-body and constant-strain conditions and the nodal equilibrium of the whole model are judged by spec/Plates.tla.', gens=[('solo', 200), ('patch', 120), ('mixed', 100), ('meshed', 60)], assumptions=MECH_ASSUME, rule='random elements, patches, meshes and mixed models'),
    'P20': dict(note='Single elements with prescribed corners: stresses at Gauss and other points are judged against the corner displacements and forces by spec/Plates.tla.', gens=[('solo', 200)], assumptions=MECH_ASSUME, rule='random elements and corner displacements'),
    'P18': dict(note='Random load histories; content, load case lists and results after deletion are judged by the specification.', gens=[('edits', 150), ('loads_life', 120)], mc=[model_run('loads', 3, 3)], assumptions=[], rule='random edit histories'),
    'P19': dict(note='Random query sequences; results before and after, and on identical fresh models, must be equal.', gens=[('queries_pure', 160)], assumptions=[], rule=''),
}


def plan(pid, tier, seed, rnd):
    """The scenarios of round rnd.  The quick tier has one round."""
    cfg = CONFIG[pid]
    if tier == 'quick' and rnd > 0: return []
    out = []
    for g, n in cfg['gens']:
        for i in range(n):
            out.append((pid, g, rnd * n + i, seed))
    if rnd == 0:
        for name in cfg.get('curated', []):
            out.append((pid, name, 0, seed))
    return out


def make(spec):
    if spec[1] == 'mc':
        return dict({'id': '%s-mc-%s' % (spec[0], spec[2]), 'props': [spec[0]]}, **spec[3])
    pid, g, i, seed = spec[:4]
    r = random.Random('%s/%s/%s/%s' % (seed, pid, g, i))
    ev = GENS[g](r, pid)
    if ev is None: return None
    sc = ev if isinstance(ev, dict) else {'events': ev}
    sc.setdefault('id', '%s-%s-%d' % (pid, g, i))
    sc.setdefault('props', [pid])
    return sc


# ------------------------------------------------------------------------------------ behaviours enumerated by TLC

NUMBERS = {'X', 'Y', 'Z', 'E', 'G', 'nu', 'rho', 'A', 'Iy', 'Iz', 'J', 'ks', 't', 'kx', 'ky', 'P', 'x', 'w1', 'w2', 'x1', 'x2', 'factor', 'p', 'val', 'tol'}


def plain(e):
    """An event printed by TLC as arguments for the real code"""
    out = {}
    for k, v in e.items():
        if v == 'null': v = None
        elif k in NUMBERS and not isinstance(v, bool): v = float(v)
        elif k == 'factors': v = {c: float(x) for c, x in v.items()}
        out[k] = v
    return out


def unquote(ln, tag):
    return re.sub(r'\\(.)', r'\1', ln[len(tag) + 1:-1])


def printed(out, tag):
    """The values TLC printed behind a tag"""
    return [json.loads(unquote(ln, tag)) for ln in out.splitlines() if ln.startswith('"' + tag)]


def behaviours(run, pid, out, r, limit):
    """The scenarios for what TLC printed."""
    return [(pid, 'mc', '%s-%s' % (run.get('label', run['module']), name), sc) for name, sc in REPLAY[run['replay']](run, out, r, limit)]


def histories_of(finish):
    def f(run, out, r, limit):
        """All histories, or all short ones and a sample of the others"""
        base, alpha = [[plain(e) for e in printed(out, t)[0]] for t in ('BASE ', 'ALPHA ')]
        edges = sorted({tuple(int(x) for x in re.findall(r'\d+', ln)) for ln in out.splitlines() if ln.startswith('"EDGE ')}, key=lambda h: (len(h), h))
        if len(edges) > limit:
            short = [h for h in edges if len(h) <= 2][:limit]
            rest = [h for h in edges if len(h) > 2] if len(short) < limit else []
            edges = short + r.sample(rest, min(len(rest), limit - len(short)))
        return [('.'.join(map(str, h)), finish(base, alpha, h, run)) for h in edges]
    return f


def oneway_cases(run, out, r, limit):
    """The structures whose walks all stay stable, under several analyses"""
    walks = {}
    for x in printed(out, 'WALK '): walks.setdefault(x['id'], []).append(x)
    L = []
    for x in printed(out, 'CASE '):
        if not all(w['sure'] for w in walks[x['id']]): continue
        ev = [plain(e) for e in x['events']]
        q = {'mem': {e['name']: {'q': [['N', '', 1.], ['M', 'Mz', .5], ['V', 'Fy', 2.]]} for e in ev if e['op'] == 'add_member'}, 'spr': True}
        z = random.Random(x['id'])
        def an(how=None, **kw):
            return mk_analyze(how or z.choice(['general', 'general', 'pdelta']), sparse=z.random() < .5, stab=z.random() < .6, q=q, **kw)
        k = z.random()
        if k < .25: ev += [an(), an()]
        elif k < .45: ev += [an(kw={'max_iter': z.choice([1, 2, 3])}), an()]
        elif k < .65: ev += [an(tags=[z.choice('ab')]), an()]
        elif k < .75: ev += [an('linear'), an()]
        elif k < .85: ev += [an(), dict(op='add_load_combo', name='W', factors={'L': z.choice([2., -.5])}, tags=None), an()]
        else: ev += [an()]
        L.append((x['id'], {'events': ev}))
    return L


REGS = {'add_node': 'nodes', 'add_auxnode': 'aux', 'add_material': 'mats', 'add_section': 'secs', 'add_spring': 'springs', 'add_member': 'members', 'add_plate': 'plates', 'add_quad': 'quads'}


def calls(base, alpha, h):
    """The calls of a history; entities created without a name are referred to by the name the code returned."""
    ev, ref, count = [dict(e) for e in base], {}, {}
    for q, a in enumerate(h):
        e = {k: (ref.get(v, v) if isinstance(v, str) else v) for k, v in alpha[a - 1].items()}
        if e['op'] in REGS and e.get('name') in (None, ''):
            reg = REGS[e['op']]
            count[reg] = count.get(reg, 0) + 1
            ref['%s#%d' % (reg, count[reg])] = '$%d' % len(ev)
            if e['op'] == 'add_node': e['X'] = 10. + q
        ev.append(e)
    return ev


def finish_model(base, alpha, h, run):
    ev = calls(base, alpha, h)
    ev[-1]['proj'] = True
    return {'events': ev + [{'op': 'orphans'}, {'op': 'cases'}]}


def finish_history(base, alpha, h, run):
    """An analysis, the edits, another analysis, and the same analysis of a fresh model of the same content"""
    ev = calls(base, alpha, h)
    k = sum(h) % 6
    how = ['general', 'linear', 'pdelta'][k % 3]
    tags = None if k < 3 else ['a']
    q = {'mem': {x: {'q': [['M', 'Mz', 1.], ['V', 'Fz', 0.5], ['N', '', 1.], ['T', '', 0.], ['d', 'dy', 1.]], 'ext': [['M', 'My'], ['d', 'dz']]} for x in ('m', 'n', 'o')}, 'spr': True, 'el': True}
    one = {x['name'] for x in ev if (x['op'] == 'add_member' and x['to'])} | {x['name'] for x in ev if x['op'] == 'set' and x['attr'] == 'to'}
    if how == 'linear' and (one or any(x['op'] == 'add_spring' and x['co'] for x in ev) or any(x['op'] == 'def_support_spring' and x['dir'] for x in ev)): how = 'general'
    gone = {x['member'] for x in ev if x['op'] == 'delete_member'}
    if any(x['op'] == 'rename' for x in ev): q['mem'] = {}
    if any(x['op'] in ('delete_node', 'delete_member') for x in ev): q['mem'] = {x: v for x, v in q['mem'].items() if x not in gone and x != 'm'}
    fin = mk_analyze(how, sparse=k % 2 == 0, stab=True, tags=tags, mayfail=True, q=q)
    ev += [{'op': 'touch', 'combos': ['U'], 'q': {'mem': q['mem'], 'spr': True, 'el': True}, 'maytouch': True}] if k % 2 and len(h) == 2 else []
    ev.append(fin); a = len(ev)
    ev += [{'op': 'rebuild', 'from': 1, 'mod': 2}, dict(fin, mod=2)]
    b = len(ev)
    for c in ('U', 'V', 'W'):
        ev.append(dict(cmp_event(1, [{'ev': a, 'combo': c}, {'ev': b, 'combo': c, 'w': -1.0}], ['D', 'R', 'mem', 'spr', 'pl'], 1e-7), sameok=True))
    return {'events': ev}


REPLAY = {'model': histories_of(finish_model), 'history': histories_of(finish_history), 'oneway': oneway_cases}

"""Executes scenario scripts (lists of modelling calls) on the real PyNite through its public API and records
what each call did: accepted or rejected, the returned name, and the requested observations.

A scenario is {"id", "props", "events": [...]}; every event is a dictionary with an "op" (see spec/Model.tla for the
vocabulary).  The recorded trace has the same events with "ok", "ret", "exc" and, where asked for, "proj" (the model
content) and "obs" (results) added.  Nothing here knows what the right answer is."""
import os, sys, math, io, contextlib, signal, traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

DOFS = ['DX', 'DY', 'DZ', 'RX', 'RY', 'RZ']
RXN = ['RxnFX', 'RxnFY', 'RxnFZ', 'RxnMX', 'RxnMY', 'RxnMZ']


class Timeout(Exception):
    pass


def num(v):
    """A number for the trace: a float, or a string the specification does not accept as a number."""
    if v is None:
        return None
    try:
        f = float(v)
    except Exception:
        try:
            f = float(v[0, 0])
        except Exception:
            return 'not a number'
    if math.isnan(f) or math.isinf(f):
        return str(f)
    return f + 0.0


def vec(a):
    try:
        import numpy as np
        return [num(x) for x in np.asarray(a, dtype=float).reshape(-1)]
    except Exception:
        return ['not a vector']


def mat(a):
    import numpy as np
    return [[num(x) for x in r] for r in np.asarray(a, dtype=float)]


# ---------------------------------------------------------------------------------------------------------------
# Modelling calls

def _name(model, reg, obj):
    """The name under which an object is registered (identity, not just equal names)."""
    d = getattr(model, reg)
    if obj is None:
        return None
    if d.get(obj.name) is obj:
        return obj.name
    return 'DANGLING ' + str(obj.name)


def do_call(model, e):
    op = e['op']
    if op == 'add_material':
        return model.add_material(e['name'], e['E'], e['G'], e['nu'], e['rho'])
    if op == 'add_section':
        from PyNite.Section import Section
        return model.add_section(e['name'], Section(model, e['name'], e['A'], e['Iy'], e['Iz'], e['J'], e['mat']))
    if op == 'add_node':
        return model.add_node(e['name'], e['X'], e['Y'], e['Z'])
    if op == 'add_auxnode':
        return model.add_auxnode(e['name'], e['X'], e['Y'], e['Z'])
    if op == 'add_spring':
        return model.add_spring(e['name'], e['i'], e['j'], e['ks'], e['to'], e['co'])
    if op == 'add_member':
        if e['sec'] is not None:
            return model.add_member(e['name'], e['i'], e['j'], e['mat'], aux_node=e['aux'], tension_only=e['to'], comp_only=e['co'], section_name=e['sec'])
        return model.add_member(e['name'], e['i'], e['j'], e['mat'], e['Iy'], e['Iz'], e['J'], e['A'], e['aux'], e['to'], e['co'])
    if op == 'add_plate':
        return model.add_plate(e['name'], e['i'], e['j'], e['m'], e['n'], e['t'], e['mat'], e['kx'], e['ky'])
    if op == 'add_quad':
        return model.add_quad(e['name'], e['i'], e['j'], e['m'], e['n'], e['t'], e['mat'], e['kx'], e['ky'])
    if op == 'def_support':
        return model.def_support(e['node'], *e['s'])
    if op == 'def_support_spring':
        return model.def_support_spring(e['node'], e['dof'], e['ks'], e['dir'])
    if op == 'def_node_disp':
        return model.def_node_disp(e['node'], e['dof'], e['val'])
    if op == 'def_releases':
        return model.def_releases(e['member'], *e['r'])
    if op == 'add_load_combo':
        if e['tags'] is None:
            return model.add_load_combo(e['name'], dict(e['factors']))
        return model.add_load_combo(e['name'], dict(e['factors']), list(e['tags']))
    if op == 'del_combo':
        del model.load_combos[e['name']]
        return None
    if op == 'add_node_load':
        if e.get('defcase'):
            return model.add_node_load(e['node'], e['dir'], e['P'])
        return model.add_node_load(e['node'], e['dir'], e['P'], e['case'])
    if op == 'add_member_pt_load':
        if e.get('defcase'):
            return model.add_member_pt_load(e['member'], e['dir'], e['P'], e['x'])
        return model.add_member_pt_load(e['member'], e['dir'], e['P'], e['x'], e['case'])
    if op == 'add_member_dist_load':
        if e.get('defcase'):
            return model.add_member_dist_load(e['member'], e['dir'], e['w1'], e['w2'], e['x1'], e['x2'])
        return model.add_member_dist_load(e['member'], e['dir'], e['w1'], e['w2'], e['x1'], e['x2'], e['case'])
    if op == 'add_member_self_weight':
        if e.get('defcase'):
            return model.add_member_self_weight(e['dir'], e['factor'])
        return model.add_member_self_weight(e['dir'], e['factor'], e['case'])
    if op == 'add_plate_surface_pressure':
        if e.get('defcase'):
            return model.add_plate_surface_pressure(e['elem'], e['p'])
        return model.add_plate_surface_pressure(e['elem'], e['p'], e['case'])
    if op == 'add_quad_surface_pressure':
        if e.get('defcase'):
            return model.add_quad_surface_pressure(e['elem'], e['p'])
        return model.add_quad_surface_pressure(e['elem'], e['p'], e['case'])
    if op == 'delete_node':
        return model.delete_node(e['node'])
    if op == 'delete_auxnode':
        return model.delete_auxnode(e['aux'])
    if op == 'delete_spring':
        return model.delete_spring(e['spring'])
    if op == 'delete_member':
        return model.delete_member(e['member'])
    if op == 'delete_loads':
        return model.delete_loads()
    if op == 'rename':
        return model.rename()
    if op == 'merge_duplicate_nodes':
        return model.merge_duplicate_nodes(e['tol']) if e.get('tol') is not None else model.merge_duplicate_nodes()
    if op == 'set':
        reg = {'members': model.members, 'springs': model.springs, 'mats': model.materials, 'plates': model.plates,
               'quads': model.quads, 'nodes': model.nodes}[e['kind']]
        setattr(reg[e['name']], {'to': 'tension_only', 'co': 'comp_only'}.get(e['attr'], e['attr']), e['val'])
        return None
    if op == 'add_mesh':
        k = e['kind']
        a = dict(e['args'])
        f = {'rect': model.add_rectangle_mesh, 'annulus': model.add_annulus_mesh, 'frustrum': model.add_frustrum_mesh, 'cylinder': model.add_cylinder_mesh}[k]
        for q in e.get('omit', []):
            a.pop(q)
        return f(e['name'], **a)
    if op == 'add_opening':
        return model.meshes[e['mesh']].add_rect_opening(e['name'], e['x'], e['y'], e['w'], e['h'])
    if op == 'generate':
        return model.meshes[e['mesh']].generate()
    if op == 'analyze':
        kw = dict(e.get('kw') or {})
        how = e['how']
        if how == 'general':
            return model.analyze(check_stability=e['stab'], sparse=e['sparse'], combo_tags=e['tags'], **kw)
        if how == 'linear':
            return model.analyze_linear(check_stability=e['stab'], sparse=e['sparse'], combo_tags=e['tags'], **kw)
        if how == 'pdelta':
            return model.analyze_PDelta(check_stability=e['stab'], sparse=e['sparse'], combo_tags=e['tags'], **kw)
    raise KeyError('unknown op ' + op)


# ---------------------------------------------------------------------------------------------------------------
# Observations

def project(model):
    """The content of the model as plain data."""
    def spr(s):
        return [] if s[0] is None else [num(s[0]), s[1]]
    nodes = {k: {'name': n.name, 'X': num(n.X), 'Y': num(n.Y), 'Z': num(n.Z),
                 'sup': [bool(getattr(n, 'support_' + d)) for d in DOFS],
                 'spr': [spr(getattr(n, 'spring_' + d)) for d in DOFS],
                 'disp': [num(getattr(n, 'Enforced' + d)) for d in DOFS],
                 'loads': [[l[0], num(l[1]), l[2]] for l in n.NodeLoads]} for k, n in model.nodes.items()}
    members = {k: {'name': m.name, 'i': _name(model, 'nodes', m.i_node), 'j': _name(model, 'nodes', m.j_node),
                   'mat': m.material_name, 'Iy': num(m.Iy), 'Iz': num(m.Iz), 'J': num(m.J), 'A': num(m.A),
                   'aux': _name(model, 'aux_nodes', m.auxNode), 'to': bool(m.tension_only), 'co': bool(m.comp_only),
                   'rel': [bool(r) for r in m.Releases],
                   'pt': [[l[0], num(l[1]), num(l[2]), l[3]] for l in m.PtLoads],
                   'dist': [[l[0], num(l[1]), num(l[2]), num(l[3]), num(l[4]), l[5]] for l in m.DistLoads]} for k, m in model.members.items()}
    springs = {k: {'name': s.name, 'i': _name(model, 'nodes', s.i_node), 'j': _name(model, 'nodes', s.j_node), 'ks': num(s.ks),
                   'to': bool(s.tension_only), 'co': bool(s.comp_only)} for k, s in model.springs.items()}

    def surf(q):
        return {'name': q.name, 'i': _name(model, 'nodes', q.i_node), 'j': _name(model, 'nodes', q.j_node), 'm': _name(model, 'nodes', q.m_node),
                'n': _name(model, 'nodes', q.n_node), 't': num(q.t), 'E': num(q.E), 'nu': num(q.nu), 'kx': num(q.kx_mod), 'ky': num(q.ky_mod),
                'loads': [[num(p[0]), p[1]] for p in q.pressures]}
    return {'nodes': nodes,
            'aux': {k: {'name': n.name, 'X': num(n.X), 'Y': num(n.Y), 'Z': num(n.Z)} for k, n in model.aux_nodes.items()},
            'mats': {k: {'name': m.name, 'E': num(m.E), 'G': num(m.G), 'nu': num(m.nu), 'rho': num(m.rho)} for k, m in model.materials.items()},
            'secs': {k: {'name': s.name, 'A': num(s.A), 'Iy': num(s.Iy), 'Iz': num(s.Iz), 'J': num(s.J)} for k, s in model.sections.items()},
            'springs': springs, 'members': members,
            'plates': {k: surf(q) for k, q in model.plates.items()}, 'quads': {k: surf(q) for k, q in model.quads.items()},
            'combos': {k: {'name': c.name, 'factors': {x: num(v) for x, v in c.factors.items()}, 'tags': None if c.combo_tags is None else list(c.combo_tags)}
                       for k, c in model.load_combos.items()},
            'solved': model.solution is not None}


def q_member(m, kind, d, x, c):
    if kind == 'V': return m.shear(d, x, c)
    if kind == 'M': return m.moment(d, x, c)
    if kind == 'N': return m.axial(x, c)
    if kind == 'T': return m.torque(x, c)
    if kind == 'd': return m.deflection(d, x, c)
    if kind == 'r': return m.rel_deflection(d, x, c)


def q_ext(m, kind, d, c, hi):
    w = 'max_' if hi else 'min_'
    if kind == 'V': return getattr(m, w + 'shear')(d, c)
    if kind == 'M': return getattr(m, w + 'moment')(d, c)
    if kind == 'N': return getattr(m, w + 'axial')(c)
    if kind == 'T': return getattr(m, w + 'torque')(c)
    if kind == 'd': return getattr(m, w + 'deflection')(d, c)


def q_arr(m, kind, d, n, c, xs=None):
    import numpy as np
    kw = {} if xs is None else {'x_array': np.array(xs, dtype=float)}
    if kind == 'V': return m.shear_array(d, n, c, **kw)
    if kind == 'M': return m.moment_array(d, n, c, **kw)
    if kind == 'N': return m.axial_array(n, c, **kw)
    if kind == 'T': return m.torque_array(n, c, **kw)
    if kind == 'd': return m.deflection_array(d, n, c, **kw)
    if kind == 'r': return m.rel_deflection_array(d, n, c, **kw)


def guard(f, *a):
    """The value of a query, or a non-number describing the exception it raised."""
    try:
        return num(f(*a))
    except Timeout:
        raise
    except Exception as ex:
        return 'raised ' + type(ex).__name__


def guardv(f, *a):
    try:
        return vec(f(*a))
    except Timeout:
        raise
    except Exception as ex:
        return ['raised ' + type(ex).__name__]


def nodal(model, c):
    D, R = {}, {}
    for k, n in model.nodes.items():
        D[k] = [num(getattr(n, d).get(c, 'missing')) if c in getattr(n, d) else 'missing' for d in DOFS]
        R[k] = [num(getattr(n, r).get(c, 'missing')) if c in getattr(n, r) else 'missing' for r in RXN]
    return D, R


def observe(model, c, q):
    """Results of one combination.  q: {"mem": {member: {"q": [[kind, dir, x]...], "ext": [[kind, dir]...], "arr": [[kind, dir, n, xs?]...]}},
    "plates"/"quads": {name: [[r, s]...]}}"""
    o = {'D': {}, 'R': {}, 'mem': {}, 'spr': {}, 'act': {}, 'pl': {}}
    o['D'], o['R'] = nodal(model, c)
    for k, mq in (q.get('mem') or {}).items():
        m = model.members[k]
        rec = {'f': guardv(m.f, c), 'q': [], 'ext': [], 'arr': []}
        for kind, d, x in mq.get('q', []):
            rec['q'].append({'k': kind, 'd': d, 'x': x, 'v': guard(q_member, m, kind, d, x, c)})
        for kind, d in mq.get('ext', []):
            rec['ext'].append({'k': kind, 'd': d, 'mx': guard(q_ext, m, kind, d, c, True), 'mn': guard(q_ext, m, kind, d, c, False)})
        for a in mq.get('arr', []):
            kind, d, n = a[:3]
            xs = a[3] if len(a) > 3 else None
            try:
                r = q_arr(m, kind, d, n, c, xs)
                X, V = vec(r[0]), vec(r[1])
            except Timeout:
                raise
            except Exception as ex:
                X, V = [], ['raised ' + type(ex).__name__]
            rec['arr'].append({'k': kind, 'd': d, 'n': n, 'xs': [] if xs is None else xs, 'x': X, 'v': V,
                               'p': [guard(q_member, m, kind, d, x, c) if isinstance(x, float) else 'no position' for x in X]})
        o['mem'][k] = rec
    # one-way elements always tell whether they act
    for k, m in model.members.items():
        if k not in o['mem'] and (m.tension_only or m.comp_only):
            o['mem'][k] = {'f': guardv(m.f, c), 'q': [], 'ext': [], 'arr': []}
    for k, s in model.springs.items():
        if q.get('spr') or s.tension_only or s.comp_only:
            o['spr'][k] = {'f': guardv(s.f, c), 'n': guard(s.axial, c)}
    for reg in ('plates', 'quads'):
        for k, pts in (q.get(reg) or {}).items():
            p = getattr(model, reg)[k]
            rec = {'F': guardv(p.F, c), 'pts': []}
            for r, s in pts:
                rec['pts'].append({'r': r, 's': s, 'M': guardv(p.moment, r, s, True, c), 'Q': guardv(p.shear, r, s, True, c), 'S': guardv(p.membrane, r, s, True, c)})
            o['pl'][k] = rec
        if q.get('el'):      # the corner forces of all the others
            for k, p in getattr(model, reg).items():
                if k not in o['pl']:
                    o['pl'][k] = {'F': guardv(p.F, c), 'pts': []}
    return o


def have_results(model):
    """Combinations for which any node reports any result."""
    s = set()
    for n in model.nodes.values():
        for a in DOFS + RXN:
            s.update(getattr(n, a).keys())
    return sorted(str(x) for x in s)


def rebuild(old, new):
    """The content of old entered into the empty model new by ordinary calls, in order of the registries."""
    from PyNite.Section import Section
    p = project(old)
    for k, m in p['mats'].items(): new.add_material(k, m['E'], m['G'], m['nu'], m['rho'])
    for k, x in p['secs'].items(): new.add_section(k, Section(new, k, x['A'], x['Iy'], x['Iz'], x['J'], list(new.materials)[0]))
    for k, n in p['nodes'].items():
        new.add_node(k, n['X'], n['Y'], n['Z'])
        new.def_support(k, *n['sup'])
        for d, s in zip(DOFS, n['spr']):
            if s: new.def_support_spring(k, d, s[0], s[1])
        for d, v in zip(DOFS, n['disp']):
            if v is not None: new.def_node_disp(k, d, v)
        for l in n['loads']: new.add_node_load(k, l[0], l[1], l[2])
    for k, n in p['aux'].items(): new.add_auxnode(k, n['X'], n['Y'], n['Z'])
    for k, s in p['springs'].items(): new.add_spring(k, s['i'], s['j'], s['ks'], s['to'], s['co'])
    for k, m in p['members'].items():
        new.add_member(k, m['i'], m['j'], m['mat'], m['Iy'], m['Iz'], m['J'], m['A'], m['aux'], m['to'], m['co'])
        if any(m['rel']): new.def_releases(k, *m['rel'])
        for l in m['pt']: new.add_member_pt_load(k, l[0], l[1], l[2], l[3])
        for l in m['dist']: new.add_member_dist_load(k, l[0], l[1], l[2], l[3], l[4], l[5])
    for reg, add, press in (('plates', new.add_plate, new.add_plate_surface_pressure), ('quads', new.add_quad, new.add_quad_surface_pressure)):
        for k, q in p[reg].items():
            mat = ([x for x, m in p['mats'].items() if m['E'] == q['E'] and m['nu'] == q['nu']] + list(p['mats']))[0]
            add(k, q['i'], q['j'], q['m'], q['n'], q['t'], mat, q['kx'], q['ky'])
            el = getattr(new, reg)[k]      # elements keep the values their material had when they were made
            el.E, el.nu = q['E'], q['nu']
            for l in q['loads']: press(k, l[0], l[1])
    for k, c in p['combos'].items(): new.add_load_combo(k, c['factors'], c['tags'])


def mesh_obs(model, name):
    ms = model.meshes[name]
    return {'nodes': {k: {'name': n.name, 'in': model.nodes.get(n.name) is n, 'p': [num(n.X), num(n.Y), num(n.Z)]} for k, n in ms.nodes.items()},
            'elements': {k: {'name': el.name, 'type': el.type, 'in': (model.plates if el.type == 'Rect' else model.quads).get(el.name) is el,
                             'c': [el.i_node.name, el.j_node.name, el.m_node.name, el.n_node.name],
                             'cin': all(ms.nodes.get(x.name) is x and model.nodes.get(x.name) is x for x in (el.i_node, el.j_node, el.m_node, el.n_node)),
                             't': num(el.t), 'kx': num(el.kx_mod), 'ky': num(el.ky_mod), 'E': num(el.E), 'nu': num(el.nu)} for k, el in ms.elements.items()},
            'generated': bool(ms.is_generated())}


# ---------------------------------------------------------------------------------------------------------------

def run_scenario(sc, limit=60):
    import warnings
    warnings.simplefilter('ignore')
    from PyNite import FEModel3D
    models = {}
    out = {'id': sc['id'], 'props': sc['props'], 'events': []}
    for k in sc:
        if k not in ('events', 'id', 'props'):
            out[k] = sc[k]

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    budget = limit
    dead = False
    rets, last = [], {}

    def resolve(v):
        """'$k' stands for the name returned by the k-th event"""
        if isinstance(v, str) and v.startswith('$'):
            q = rets[int(v[1:])]
            return q if isinstance(q, str) else 'no name'
        return v
    for e in sc['events']:
        e = {k: resolve(v) for k, v in e.items()}
        r = dict(e)
        r.setdefault('mod', 1)
        mid = r['mod']
        if r['op'] in ('cmp',):
            r['ok'] = True
            out['events'].append(r)
            rets.append(None)
            continue
        if mid not in models:
            models[mid] = FEModel3D()
        model = models[mid]
        r['ok'], r['ret'], r['exc'] = True, None, ''
        if r['op'] == 'analyze': last[mid] = r['how']
        if r['op'] == 'observe': r['how'] = last.get(mid, 'general')
        signal.setitimer(signal.ITIMER_REAL, max(1.0, budget))
        before = {k: (bool(x.is_generated()), id(x.nodes), len(x.nodes)) for k, x in model.meshes.items()} if e['op'] in ('add_mesh', 'generate', 'analyze') else {}
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                op = e['op']
                try:
                    if op == 'rebuild':
                        rebuild(models[e['from']], model)
                    elif op not in ('observe', 'project', 'sync', 'query', 'mesh_obs', 'orphans', 'cases', 'touch'):
                        ret = do_call(model, e)
                        r['ret'] = ret if isinstance(ret, (str, list)) else None
                        if isinstance(ret, list):
                            r['ret'], r['list'] = None, [str(x) for x in ret]
                    elif op == 'orphans':
                        r['list'] = list(model.orphaned_nodes())
                    elif op == 'cases':
                        lc = model.load_cases
                        r['list'] = list(lc() if callable(lc) else lc)
                except Timeout:
                    raise
                except Exception as ex:
                    r['ok'], r['exc'] = False, type(ex).__name__ + ': ' + str(ex)[:200]
                if op == 'touch':      # result queries whose values are not recorded
                    for c in e['combos']:
                        observe(model, c, e['q'])
                if op in ('project', 'sync', 'rebuild', 'rename', 'merge_duplicate_nodes', 'add_mesh', 'add_opening', 'generate') or r.get('proj'):
                    r['proj'] = project(model)
                if op in ('add_mesh', 'generate', 'analyze'):     # meshes generated by this call
                    made = {k: mesh_obs(model, k) for k, x in model.meshes.items()
                            if x.is_generated() and (not before.get(k, (False,))[0] or (op == 'generate' and k == e['mesh']) or before[k][1:] != (id(x.nodes), len(x.nodes)))}
                    if made:
                        r['meshes'] = made
                        r['proj'] = project(model)
                if op in ('rename', 'merge_duplicate_nodes') and model.meshes:
                    r['meshes'] = {k: mesh_obs(model, k) for k, x in model.meshes.items() if x.is_generated()}
                if op == 'delete_loads':
                    r['have'] = have_results(model)
                if op == 'analyze':
                    r['solved'] = model.solution is not None
                    r['have'] = have_results(model)
                if op in ('analyze', 'observe') and r['ok']:
                    obs = {}
                    want = e.get('combos') or sorted(model.load_combos.keys())
                    for c in want:
                        if op == 'observe' or e['tags'] is None or (model.load_combos[c].combo_tags is not None and set(model.load_combos[c].combo_tags) & set(e['tags'])):
                            obs[c] = observe(model, c, e.get('q') or {})
                    r['obs'] = obs
                if op == 'mesh_obs':
                    r['mesh'] = mesh_obs(model, e['mesh'])
                r.pop('q', None)
        except Timeout:
            r['ok'], r['exc'], dead = False, 'Timeout', True
        except Exception as ex:
            r['ok'], r['exc'], dead = False, 'harness: ' + type(ex).__name__ + ': ' + str(ex)[:300] + traceback.format_exc()[-600:], True
            r['broken'] = True
        finally:
            left = signal.setitimer(signal.ITIMER_REAL, 0)[0]
        out['events'].append(r)
        rets.append(r['ret'])
        if dead:
            break
    return out

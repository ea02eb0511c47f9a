"""C20 - C23, C30: what a simulation exposes, compared across worlds, observers, types and graph marks."""
from fractions import Fraction

import sa.terms as TT
from sa.phys import *
from sa.report import Check, clip
from sa.forks import explore
from checks.world import J1, J2, F, C

B_ATTRS = ('p', 'v', 'rot', 'pos', 'M', 'mass', 'ang_inertia', 'restitution', 'fric_coeff', 'eps', 'rad', 'dims', 'verts')
J_ATTRS = ('pos', 'pos1', 'pos2', 'r1', 'r2', 'rot1', 'rot2', 'num_constraints', 'static')
W_ATTRS = ('t', 'dt', 'eps', 'tol', 'fric_dirs', 'post_stab', 'strict_no_pen', 'num_constraints', 'static_inverse', 'vec_len')
W_CALLS = ('get_v', 'M', 'Je', 'Jc', 'Jf', 'mu', 'E', 'restitutions')


class Sim:
    """A world of three bodies with forces and joints; its contacts and LCP solutions are unknowns of its own."""

    def __init__(self, w, tag):
        self.w, self.tag = w, tag
        self.calls = self.finds = 0
        self.bodies, self.joints, self.world, self.forces = [], [], None, []
        self.nc = 0


def hooks(w):
    """Collision detection and the LCP solver, reduced to unknowns belonging to the world they are called for."""
    w.sims = {}
    w.cur = None

    def sim_of(world):
        for s in w.sims.values():
            if s.world is world or isinstance(world, Obj) and isinstance(s.world, Obj) and s.world.addr == world.addr:
                return s
        return w.sims[w.cur]

    def collide(ip, st, o, args, kw):
        world = w.items(args[0], st)[0]
        s = sim_of(world)
        s.finds += 1
        lst = ip.getattr(world, 'contacts', st)
        app = ip.getattr(lst, 'append', st)
        for k in range(s.nc):
            n = '%sc%d.%d' % (s.tag, s.finds, k)
            t = TupV([lib.mk(ip, st, (2,), syms(n + 'n', 2), 'B'), lib.mk(ip, st, (2,), syms(n + 'p', 2), 'B'),
                      lib.mk(ip, st, (2,), syms(n + 'q', 2), 'B'), lib.mk(ip, st, (), [R.c(-1)], 'B')])
            ip.call(app, [TupV([t, R.c(k % 2), R.c(1 + k % 2)])], {}, st)
        return None
    w.ip.collide_hook = collide

    def lcp(ip, st, o, args, kw):
        s = w.sims[w.cur]
        s.calls += 1
        a = args[0] if args else kw.get('Q')
        n = w.shape(a, st)[-1]
        # the solution depends on all of the problem: remember it
        full, ts, cuts = [], [], []
        for q, x in enumerate(list(args) + [kw[k] for k in sorted(kw)]):
            full.append(w.vals(x, st) if isinstance(x, Ten) else x)
            if isinstance(x, Ten) and size_of(x):
                ts.append((q, {x.dt}))
                cuts.append((q, sorted({repr(a.args[0]) for v in w.raw(x, st) for a in all_atoms(v, conds=False) if a.tag == 'det'})))
        s.types.append(ts)
        s.cuts.append(cuts)
        s.log.append((n, full, ip.getattr(o, 'max_iter', st, None, True) if isinstance(o, Obj) and o.cls is not None else None))
        return lib.mk(ip, st, (1, n), [S('%sz%d' % (s.tag, s.calls), i) for i in range(n)], 'B')
    w.ip.obj_call_hook = lcp

    def apply_(ip, st, args, kw):
        return lcp(ip, st, Obj(ip.new(), None), args, kw)
    w.ip.ext_over['torch.autograd.Function.apply'] = apply_


def force_fn(tag, i):
    return PyFn(lambda ip, st, args, kw: lib.mk(ip, st, (3,), [R.atom(Atom('F', tag, i, j, args[0])) for j in range(3)], 'B'), 'force')


def build(w, tag, variant):
    s = Sim(w, tag)
    s.log, s.types, s.cuts = [], [], []
    w.sims[tag] = s
    w.cur = tag
    if variant == 'numbers':
        # no tensor anywhere
        L = lambda n, k: w.lst([S(tag + n, i) for i in range(k)])
        bs = [w.new('Circle', L('0.p', 2), S(tag + '0.r')), w.new('Rect', L('1.p', 3), L('1.d', 2)), w.new('Circle', L('2.p', 2), S(tag + '2.r'))]
        for b in bs[:2]:
            w.call(b, 'add_force', w.new('Gravity', S(tag + '.g')))
        w.call(bs[2], 'add_force', w.new('ExternalForce'))
        s.bodies = bs
        s.world = w.new('World', w.lst(bs))
        return s
    if variant == 'plain':
        # nothing but the required arguments
        bs = [w.new('Circle', w.vec(tag + '0.p', 2), w.sc(tag + '0.r')), w.new('Rect', w.vec(tag + '1.p', 2), w.vec(tag + '1.d', 2)),
              w.new('Circle', w.vec(tag + '2.p', 3), w.sc(tag + '2.r'))]
        w.call(bs[0], 'add_force', w.new('ExternalForce'))
        w.call(bs[1], 'add_force', w.new('Gravity'))
        js = []
        s.bodies, s.joints = bs, js
        s.world = w.new('World', w.lst(bs))
        return s
    kinds = {'joints': ('Circle', 'Rect', 'Hull'), 'contacts': ('Circle', 'Circle', 'Rect'), 'post': ('Rect', 'Circle', 'Circle'),
             'static': ('Circle', 'Circle', 'Circle')}[variant]
    bs = [w.body(k, '%s%d' % (tag, i)) for i, k in enumerate(kinds)]
    s.bodies = bs
    fs = [w.new('ExternalForce', force_fn(tag, 0), w.sc(tag + '.k')), w.new('Gravity', w.sc(tag + '.g')), w.new('ExternalForce', w.get('lcp_physics.physics.forces', 'hor_impulse'))]
    for b, f in zip(bs, fs):
        w.call(b, 'add_force', f)
    w.call(bs[1], 'add_force', fs[0])
    w.call(bs[2], 'add_force', fs[1])
    spec = {'joints': [J2(0, 1), F(1, 2), C('TotalConstraint', 0)], 'contacts': [J2(1, 2)], 'post': [J1(0)],
            'static': [C('XConstraint', 1), C('YConstraint', 2)]}[variant]
    if variant == 'contacts':
        w.call(bs[0], 'add_no_contact', bs[2])
    js = [j[0](w, bs) for j in spec]
    s.joints = js
    s.nc = {'contacts': 2, 'post': 1}.get(variant, 0)
    kw = dict(constraints=w.lst(js), dt=S(tag + '.dt'), tol=S(tag + '.tol'), eps=S(tag + '.eps'))
    if variant == 'post':
        kw['post_stab'] = True
    w.st.guard = b_and(w.st.guard, c_le(R.c(-1), S(tag + '.tol')))
    s.world = w.new('World', w.lst(bs), **kw)
    w.setattr(s.world, 't', S(tag + '.t'))
    return s


def step(w, s):
    w.cur = s.tag
    w.call(s.world, 'step')


def observe(w, s, read):
    """{name: whatever read gives} of everything a world shows."""
    w.cur = s.tag
    out = {}
    st = w.st

    def put(n, v):
        x = read(v)
        if x is not None:
            out[n] = x
    for i, b in enumerate(s.bodies):
        for a in B_ATTRS:
            v = w.ip.getattr(b, a, st, None, True) if (b.addr, a) in st.heap else None
            if v is not None:
                if a == 'verts':
                    for k, x in enumerate(w.items(v)):
                        put('body %d %s.%s[%d]' % (i, b.cls.name, a, k), x)
                else:
                    put('body %d %s.%s' % (i, b.cls.name, a), v)
        put('body %d %s.apply_forces' % (i, b.cls.name), w.call(b, 'apply_forces', S('time')))
        g = st.heap.get((b.addr, 'geom'))
        if isinstance(g, Obj):
            for f in ('%pos', '%quat', '%rot'):
                if (g.addr, f) in st.heap:
                    put('body %d %s.geom%s' % (i, b.cls.name, f), st.heap[(g.addr, f)])
    for i, j in enumerate(s.joints):
        for a in J_ATTRS:
            if (j.addr, a) in st.heap:
                put('joint %d %s.%s' % (i, j.cls.name, a), st.heap[(j.addr, a)])
        for k, x in enumerate(w.items(w.call(j, 'J'))):
            put('joint %d %s.J%d' % (i, j.cls.name, k), x)
    for a in W_ATTRS:
        if (s.world.addr, a) in st.heap:
            put('World.' + a, st.heap[(s.world.addr, a)])
    for m in W_CALLS:
        put('World.%s()' % m, w.call(s.world, m))
    put('World.apply_forces()', w.call(s.world, 'apply_forces', S('time')))
    for i, ct in enumerate(w.items(w.attr(s.world, 'contacts'))):
        t, a, b = w.items(ct)
        for k, x in enumerate(w.items(t)):
            put('contact %d.%d' % (i, k), x)
        put('contact %d bodies' % i, TupV([a, b]))
    for k, (n, full, mi) in enumerate(s.log):
        for q, x in enumerate(full):
            if isinstance(x, list):
                out['LCP call %d argument %d' % (k, q)] = x
    return out


def numbers(w):
    """Reader: the numbers in a value."""
    def read(v, d=0):
        l = first_leaf(v)
        if v is None:
            return None
        if isinstance(l, bool):
            return [v]
        if isinstance(l, R):
            return [undet(v)]
        if isinstance(l, Ten):
            return w.vals(v) + [R.atom(Atom('type', str(lib.lift_dt(v))))]
        if isinstance(l, TupV) or isinstance(l, Ref):
            out = []
            for x in w.items(v):
                n = read(x, d + 1)
                if n is None:
                    return None
                out += n
            return out
        return None
    return read


def compare(c, text, key, where, got, exp, msg):
    names = [n for n in exp if n not in got] + [n for n in got if n not in exp]
    for n in names:
        c.viol('%s:%s' % (key, n), where(n), '%s: %s exists only %s' % (msg, n, 'alone' if n in exp else 'then'))
    bad = 0
    for n in exp:
        if n in got:
            d = path_eq(got[n], exp[n])
            if d is not None:
                bad += 1
                c.viol('%s:%s' % (key, n), where(n), '%s: %s differs (%s)' % (msg, n, d[0]), d[1], d[2])
    if not bad and not names:
        c.obl.append(('%s: %d quantities' % (text, len(exp)), 'discharged'))
    return not bad


VARIANTS = ('plain', 'numbers', 'joints', 'contacts', 'post', 'static')


def session(c):
    w = W(c)
    hooks(w)
    w.ip.hide_values = True
    TT.CUT[0] = True
    return w


def statics(w):
    """Module- and class-level numbers of the physics package."""
    out = {}
    rd = numbers(w)
    for cn in ('Defaults', 'Indices', 'ExternalForce', 'Gravity', 'Body', 'Circle', 'Rect', 'Hull', 'World', 'Joint', 'FixedJoint'):
        try:
            k = w.cls(cn)
        except Imprecise:
            continue
        for (a, f), v in list(w.st.heap.items()):
            if a == getattr(k, 'addr', None) and isinstance(f, str):
                try:
                    x = [v] if isinstance(v, str) else rd(v) if isinstance(first_leaf(v), (R, Ten, bool)) else None
                except Imprecise:
                    x = None
                if x is not None:
                    out['%s.%s' % (cn, f)] = x
    return out


def c23():
    c = Check('C23', 'separate simulations', 'a world evaluated alone and next to other worlds in one abstract session: everything both expose compared '
              'quantity by quantity; module- and class-level writes inventoried over the call graph')
    alone = {}

    def run_alone(v):
        w = session(c)
        s = build(w, 'B', v)
        r0 = observe(w, s, numbers(w))
        step(w, s)
        r1 = observe(w, s, numbers(w))
        r2 = None
        if v != 'joints':
            step(w, s)
            r2 = observe(w, s, numbers(w))
        alone[v] = (r0, r1, r2)
        w.done()
    for v in VARIANTS:
        c.guard('%s world alone' % v, lambda: run_alone(v))
    wh = lambda n: n.split('.')[0] + '.' + n.split('.', 1)[1] if '.' in n else 'World'

    def pair(va, vb):
        if vb not in alone:
            return
        w = session(c)
        rd = numbers(w)
        s0 = statics(w)
        a = build(w, 'A', va)
        step(w, a)
        text = '%s world after a %s world' % (vb, va)
        b = build(w, 'B', vb)
        x = alone[vb]
        pa = observe(w, a, rd)
        compare(c, text + ', created', 'new', wh, observe(w, b, rd), x[0], text + ': created next to it')
        step(w, b)
        compare(c, text + ', the first kept', 'kept', wh, observe(w, a, rd), pa, 'stepping a %s world changes a %s world' % (vb, va))
        compare(c, text + ', first step', 'step1', wh, observe(w, b, rd), x[1], text + ': its first step')
        if vb != 'joints':
            if va != 'joints':
                step(w, a)
                compare(c, text + ', the other stepped', 'kept2', wh, observe(w, b, rd), x[1], text + ': stepping the other one')
            step(w, b)
            compare(c, text + ', second step', 'step2', wh, observe(w, b, rd), x[2], text + ': its second step')
        compare(c, text + ', constants', 'static', lambda n: n, {k: v for k, v in statics(w).items() if k in s0}, s0, 'shared constants')
        w.done()
    for va in VARIANTS:
        for vb in VARIANTS:
            c.guard('%s after %s' % (vb, va), lambda: pair(va, vb))
    c.guard('solver', lambda: solver_alone(c))
    c.guard('inventory', lambda: inventory(c))
    return c.finish()


def solver_alone(c):
    """The linear algebra of one problem, alone and after other problems."""
    from checks import solver as sv

    def values(w, size):
        pr = sv.Prob(w, 'B', *size, sym_q=True)
        r = w.fn(sv.P, 'pre_factor_kkt', pr.Q, pr.G, pr.F, pr.A)
        QLU, SLU, R_ = w.items(r)
        out = []
        for n in '12':
            d = pr.T('d' + n, pr.nb, pr.ni)
            w.fn(sv.P, 'factor_kkt', SLU, R_, d)
            for x in w.items(w.fn(sv.P, 'solve_kkt', QLU, d, pr.G, pr.A, SLU, *pr.rhs('r' + n))):
                out.append(w.vals(x) if isinstance(x, Ten) else x)
        return out
    for size in ((1, 2, 2, 1), (2, 2, 1, 0), (1, 2, 3, 0)):
        w = sv.session(c, 0)
        alone = values(w, size)
        w.done()
        for other in (size, (1, 2, 1, 0), (2, 1, 2, 1), (1, 1, 3, 0)):
            w = sv.session(c, 0)
            q = sv.Prob(w, 'A', *other, sym_q=True)
            r = w.items(w.fn(sv.P, 'pre_factor_kkt', q.Q, q.G, q.F, q.A))
            w.fn(sv.P, 'factor_kkt', r[1], r[2], q.T('d', q.nb, q.ni))
            lib.LU_CALLS[0] = 0
            got = values(w, size)
            ok = len(got) == len(alone) and all(x == y if not isinstance(x, list) or not isinstance(y, list) else
                                                len(x) == len(y) and all(sv.identical(p, q) for p, q in zip(x, y)) for x, y in zip(got, alone))
            c.eq(ok, 'solution of a problem of size %r after one of size %r' % (size, other), 'solver', 'pdipm.factor_kkt',
                 'the solution of a linear system depends on the problem solved before')
            w.done()


MUTATE = {'append', 'add', 'update', 'setdefault', 'pop', 'popitem', 'extend', 'insert', 'clear', 'remove', 'discard', 'sort', 'reverse',
          '__setitem__', '__delitem__', 'fill', 'put', 'appendleft'}


def inventory(c):
    """Writes of functions to modules, classes and default arguments, other than in functions whose effects were compared above."""
    import ast
    from sa.program import Program, Cls, dotted
    from checks.lint import resolve_static
    p = Program(('lcp_physics',))
    # the modules a simulation loads
    need, todo = set(), ['lcp_physics.physics']
    while todo:
        n = todo.pop()
        m = p.mods.get(n)
        if m is None or n in need:
            continue
        need.add(n)
        todo.append(n.rsplit('.', 1)[0])
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Import):
                todo += [a.name for a in x.names]
            elif isinstance(x, ast.ImportFrom):
                b = p.absmod(m, x)
                todo += [b] + [b + '.' + a.name for a in x.names]
    nfn = nw = 0
    for n in sorted(need):
        m = p.mods[n]
        for f in m.allfns:
            nfn += 1
            args = f.node.args
            params = [a.arg for a in args.posonlyargs + args.args + args.kwonlyargs]
            local, glob = set(params), set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Global):
                    glob |= set(x.names)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    local.add(x.id)
            local -= glob
            pos = args.posonlyargs + args.args
            dflt = dict(zip([a.arg for a in pos[len(pos) - len(args.defaults):]], args.defaults))
            dflt.update({a.arg: d for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None})
            shared = {a for a, d in dflt.items() if isinstance(d, (ast.List, ast.Dict, ast.Set)) or
                      isinstance(d, ast.Call)}
            shared -= {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

            def owner(e, attr=None):
                """'module', 'class', 'default' object an expression stands for, or None"""
                if isinstance(e, ast.Name):
                    if e.id in shared:
                        return 'default argument %s' % e.id
                    if e.id in local:
                        if f.is_classm() and params and e.id == params[0]:
                            return 'class'
                        return None
                    b = m.binds.get(e.id)
                    if isinstance(b, Cls):
                        return 'class %s' % e.id
                    if isinstance(b, tuple) and b[0] == 'module':
                        return 'module %s' % e.id
                    if isinstance(b, tuple) and b[0] == 'from':
                        t = resolve_static(p, m, [e.id])
                        return 'class %s' % e.id if isinstance(t, Cls) else 'imported %s' % e.id
                    if isinstance(b, tuple):
                        return 'module variable %s' % e.id
                    return None
                if isinstance(e, ast.Attribute):
                    if e.attr == '__class__':
                        return 'class'
                    if e.attr == '__dict__':
                        return owner(e.value)
                    o = owner(e.value)
                    if o is not None:
                        return '%s.%s' % (o, e.attr)
                    if isinstance(e.value, ast.Name) and f.cls is not None and params and e.value.id == params[0] and not f.is_static():
                        # an attribute found on the class because no method stores it on the instance
                        inst = {y.attr for g in f.cls.methods.values() for y in ast.walk(g.node)
                                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store)}
                        if e.attr in f.cls.attrs and e.attr not in f.cls.methods and e.attr not in inst:
                            return 'class attribute %s' % e.attr
                    return None
                if isinstance(e, ast.Subscript):
                    return owner(e.value)
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type':
                    return 'class'
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('globals', 'vars'):
                    return 'module'
                return None
            writes = []
            for x in ast.walk(f.node):
                ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
                for t in ts:
                    for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(y, ast.Name) and y.id in glob:
                            writes.append((x, 'module variable %s' % y.id))
                        elif isinstance(y, ast.Name) and isinstance(x, ast.AugAssign) and y.id in dflt and isinstance(dflt[y.id], (ast.List, ast.Dict, ast.Set)):
                            writes.append((x, 'default argument %s' % y.id))
                        elif isinstance(y, (ast.Attribute, ast.Subscript)):
                            o = owner(y.value)
                            if o:
                                writes.append((x, o + ('.' + y.attr if isinstance(y, ast.Attribute) else '')))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    a = x.func.attr
                    if a in MUTATE or a.endswith('_') and not a.startswith('_') and not a.endswith('__'):
                        o = owner(x.func.value)
                        if o and not o.startswith('module ') and not o.startswith('imported '):
                            writes.append((x, o))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and x.args:
                    o = owner(x.args[0])
                    if o:
                        writes.append((x, o))
            for x, what in writes:
                nw += 1
                where = '%s:%d (%s)' % (m.rel, x.lineno, f.qual)
                if any(q == f.qual or q.endswith('.' + f.qual) for q in c.analysed):
                    c.ok('%s writes %s: decided by comparison' % (f.qual, what))
                elif what.startswith('module variable ') and only_prints(m, what.split()[-1]):
                    c.ok('%s writes %s, which only controls messages' % (f.qual, what))
                else:
                    c.viol('write:%s:%s' % (f.qual, what), where, 'state shared by all simulations is written (%s)' % what)
    c.counts['inventory'] = {'functions': nfn, 'writes': nw}
    c.ok('inventory of %d functions' % nfn)


def only_prints(m, name):
    """Every read of a module variable is the test of a branch that prints and sets variables of this kind."""
    import ast
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
            q = m.parent[x]
            while isinstance(q, (ast.UnaryOp, ast.BoolOp)):
                q = m.parent[q]
            if not isinstance(q, ast.If) or q.orelse:
                return False
            for s in q.body:
                if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) and t.id == name for t in s.targets) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'print':
                    continue
                return False
    return True


# ------------------------------------------------------------ C20, C30: graph marks and types
def detached(w):
    """Reader: the unknowns a value depends on only outside the autograd graph."""
    def read(v):
        l = first_leaf(v)
        if isinstance(l, Ten):
            vs = w.raw(v)
        elif isinstance(l, R):
            vs = [v]
        elif isinstance(l, (TupV, Ref)):
            out = []
            for x in w.items(v):
                out += read(x) or []
            return out
        else:
            return None
        cut = set()
        for x in vs:
            for a in all_atoms(x, conds=False):
                if a.tag == 'det':
                    cut.add(repr(a.args[0]))
        return sorted(cut)
    return read


def types(w):
    """Reader: the element types of the floating point tensors in a value."""
    def read(v):
        l = first_leaf(v)
        if isinstance(l, Ten):
            ds = {x.dt for x in all_leaves(v) if isinstance(x, Ten) and size_of(x) and x.dt not in ('I', 'bool')}
            return ds or None
        if isinstance(l, (TupV, Ref)):
            out = set()
            try:
                its = w.items(v)
            except Imprecise:
                return None
            for x in its:
                out |= read(x) or set()
            return out or None
        return None
    return read


def size_of(t):
    n = 1
    for k in t.shape:
        n *= k
    return n


def c20():
    c = Check('C20', 'autograd graph', 'every quantity exposed by worlds of all body, joint and force classes before and after steps, by the contact '
              'handler and passed to the solver: marks of detached reads traced through the value numbers')
    c.assumptions = ['the position given to a joint is a plain number (it is copied)', 'the solver propagates gradients (C26)']

    def allowed(n):
        return 'anc' in n or n.endswith('.t') or n.endswith('.dt') or n.endswith('.eps') or n.endswith('.tol') or 'time' in n

    def judge(got, text, phase):
        bad = 0
        for n, cut in got.items():
            if '.geom' in n or ' argument ' in n and n.startswith('LCP') or cut is None:
                continue
            cut = [x for x in cut if not allowed(x)]
            if cut:
                bad += 1
                c.viol('graph:%s' % n, n.split(' argument')[0], '%s, %s: %s depends on %s only outside the autograd graph' % (text, phase, n, ', '.join(cut[:4])))
        if not bad:
            c.obl.append(('%s, %s: %d quantities' % (text, phase, len(got)), 'discharged'))

    def run(v):
        w = session(c)
        s = build(w, 'B', v)
        judge(observe(w, s, detached(w)), v, 'created')
        step(w, s)
        judge(observe(w, s, detached(w)), v, 'after a step')
        if v != 'joints':
            step(w, s)
            judge(observe(w, s, detached(w)), v, 'after two steps')
        judge({'argument %d of LCP call %d' % (q, j): x for j, cs in enumerate(s.cuts) for q, x in cs}, v, 'problems solved')
        w.done()
    for v in VARIANTS:
        if v != 'numbers':
            c.guard(v, lambda: run(v))
    c.guard('retries', lambda: retries(c, allowed))
    contact_scan(c, 'graph', graph_of)
    return c.finish()


def marks(v):
    return {repr(a.args[0]) for a in all_atoms(v, conds=False) if a.tag == 'det'}


def retries(c, allowed):
    """What an attempt leaves behind for the next one, and what the last one leaves behind."""
    from checks import step as sp
    for name, js, strict in (('two-body joint', [J2(0, 1), C('XConstraint', 2)], True), ('joints', [F(0, 1), C('TotalConstraint', 2), J1(0)], False)):
        w = W(c)
        world, bs, jo, calls, postf = sp.setup(w, js, 1, strict)
        w.call(world, 'step_dt', S('T'))
        bad = {}
        for mi, mb, li in sp.loop_maps(w):
            for a, v in mb.items():
                cut = [x for x in marks(v) if not allowed(x)] if isinstance(v, (R, DD)) else []
                if cut:
                    bad['what a rejected attempt leaves behind'] = cut
        for n, o in [('body %d' % i, b) for i, b in enumerate(bs)] + [('joint %d' % i, j) for i, j in enumerate(jo)]:
            for f in ('p', 'v', 'pos', 'rot', 'pos1', 'pos2', 'rot1', 'rot2', 'verts'):
                if (o.addr, f) in w.st.heap:
                    v = w.st.heap[(o.addr, f)]
                    vs = [x for t in w.items(v) for x in w.raw(t)] if f == 'verts' else w.raw(v) if v is not None else []
                    cut = [x for y in vs for x in marks(y) if not allowed(x)]
                    if cut:
                        bad['%s.%s' % (n, f)] = cut
        for n, cut in bad.items():
            c.viol('retry:%s:%s' % (name, n), 'World.step_dt', '%s, retried step: %s depends on %s only outside the autograd graph' % (name, n, ', '.join(cut[:3])))
        if not bad:
            c.ok('retried step with %s' % name)
        w.done()


def graph_of(sc, q, k, o):
    cut = set()
    for x in q:
        for a in all_atoms(o.restrict(x), conds=False):
            if a.tag == 'det':
                cut.add(repr(a.args[0]))
    return 'part %d of a contact depends on %s only outside the autograd graph' % (k, ', '.join(sorted(cut)[:4])) if cut else None


def type_of(sc, q, k, o):
    return None


def contact_scan(c, key, fn, typ=False):
    from checks import contacts as ct
    names = ('normal', 'offset from the first body', 'offset from the second body', 'penetration')

    def go(ka, kb):
        name = '%s-%s' % (ka.lower(), kb.lower())
        sc = ct.Scene(c, ka, kb)

        def one(o):
            w = sc.w
            out = []
            w.ip.oracle = o
            st = sc.st0.clone()
            try:
                w.call(sc.world, 'find_contacts', st=st)
            except AbsRaise:
                st.dead = True
            finally:
                w.ip.oracle = None
            if st.dead:
                return [('raises', [])]
            lst = o.restrict(w.attr(sc.world, 'contacts', st))
            for it in o.restrict(st.heap[(lst.addr, 'c')]).items:
                t = w.items(o.restrict(it), st)[0]
                for k, v in enumerate(w.items(o.restrict(t), st)):
                    v = o.restrict(v)
                    if typ:
                        ds = {x.dt for x in all_leaves(v) if isinstance(x, Ten)}
                        msg = None if ds == {'B'} else 'the %s has type %s instead of the type of the bodies' % (names[k], ', '.join(map(str, sorted(ds))) or 'number')
                    else:
                        msg = fn(sc, w.raw(v, st), k, o)
                    if msg:
                        out.append(('viol', '%s:%s:%d' % (key, name, k), 'DiffContactHandler.__call__', '%s: %s' % (name, msg), None, None))
                    else:
                        out.append(('ok', '%s of %s contacts' % (names[k], name)))
            return out + [('called', sorted(w.ip.called))]
        old = TT.CUT[0]
        try:
            ct.collect(c, name, explore(one, ct.assume))
        finally:
            TT.CUT[0] = old
    for ka, kb in ct.PAIRS:
        c.guard('contacts', lambda: go(ka, kb))


ARGS = {'Circle': ('pos', 'rad', 'vel', 'mass', 'restitution', 'fric_coeff', 'eps'),
        'Rect': ('pos', 'dims', 'vel', 'mass', 'restitution', 'fric_coeff', 'eps'),
        'Hull': ('ref_point', 'vertices', 'vel', 'mass', 'restitution', 'fric_coeff', 'eps')}


def one_tensor(w, kind, arg, n='b', dt='B', two=0):
    """A body with one tensor argument (None: no tensor, 'all': every one)."""
    def val(a, k):
        t = arg == a or arg == 'all'
        if a == 'vertices':
            mk = (lambda i: w.vec(n + '.u%d' % i, 2, dt)) if t else (lambda i: w.lst([S(n + '.u%d' % i, 0), S(n + '.u%d' % i, 1)]))
            return w.lst([mk(i) for i in range(3)])
        if k == 0:
            return w.sc(n + '.' + a, dt) if t else S(n + '.' + a)
        return w.vec(n + '.' + a, k, dt) if t else w.lst([S(n + '.' + a, i) for i in range(k)])
    size = {'pos': two or 3, 'ref_point': 2, 'dims': 2, 'vel': two or 3}
    kw = {a: val(a, size.get(a, 0)) for a in ARGS[kind]}
    return w.new(kind, **kw)


def body_types(w, b):
    rd = types(w)
    out = {}
    for (a, f), v in list(w.st.heap.items()):
        if a == b.addr and isinstance(f, str) and not f.startswith(('_', '%')):
            x = rd(v)
            if x is not None:
                out[f] = x
    return out


def c30():
    c = Check('C30', 'element types', 'element types (the user\'s, the default, mixtures) propagated through constructors with each argument the only tensor, '
              'forces, worlds, steps, contacts and the solver with its gradients')

    def expect(got, want, key, where, text):
        bad = {n: t for n, t in got.items() if t is not None and t != {want}}
        for n, t in bad.items():
            c.viol('%s:%s' % (key, n), where if ' ' not in n and '.' not in n else n, '%s: %s has type %s' % (text, n, ', '.join(map(str, sorted(t, key=str)))),
                   'the type of the tensor given' if want == 'B' else 'the default type')
        if not bad:
            c.obl.append(('%s: %d quantities' % (text, len(got)), 'discharged'))

    def fdefs(w):
        f64 = PyFn(lambda ip, st, args, kw: lib.mk(ip, st, (3,), [R.atom(Atom('F', j, args[0])) for j in range(3)], 'D'), 'force')
        return [w.new('ExternalForce'), w.new('Gravity'), w.new('Gravity', S('g')), w.new('ExternalForce', f64, S('k')),
                w.new('ExternalForce', w.get('lcp_physics.physics.forces', 'hor_impulse')),
                w.new('ExternalForce', w.get('lcp_physics.physics.forces', 'vert_impulse'), R.c(5)),
                w.new('ExternalForce', w.get('lcp_physics.physics.forces', 'rot_impulse'), S('k'))]

    def body(kind, arg, two=0):
        w = session(c)
        b = one_tensor(w, kind, arg, two=two)
        want = 'B' if arg else w_default(w)
        text = '%s with %s' % (kind, 'only %s a tensor' % arg if arg not in (None, 'all') else 'every argument a tensor' if arg else 'no tensor')
        key = '%s:%s' % (kind, arg)
        expect(body_types(w, b), want, key, kind + '.__init__', text)
        rd = types(w)
        expect({'apply_forces without forces': rd(w.call(b, 'apply_forces', S('time')))}, want, key, 'Body.apply_forces', text)
        for i, f in enumerate(fdefs(w)):
            w.call(b, 'add_force', f)
            for t in (S('time'), ZERO, ONE):
                expect({'%s.force' % f.cls.name: rd(w.call(f, 'force', t))}, want, key + ':force%d' % i, '%s.force' % f.cls.name, text)
        expect({'Body.apply_forces': rd(w.call(b, 'apply_forces', S('time')))}, want, key, 'Body.apply_forces', text)
        w.call(b, 'move', S('dt'))
        expect(body_types(w, b), want, key + ':move', kind + '.move', text + ', moved')
        casts(w, text)
        w.done()

    def casts(w, text):
        # values squeezed through single precision on the way
        for where, a, b in w.ip.cast_log:
            if a == 'F' or ',F' in a or 'F,' in a or '(F' in a:
                c.viol('cast:' + where.split('(')[-1], where, '%s: a value passes from the default library type to %s' % (text, 'the type of the tensor given' if b == 'B' else b))

    def w_default(w):
        d = w.st.heap.get((w.cls('Defaults').addr, 'DTYPE'))
        return lib.dt_of(d)
    for kind in ARGS:
        for arg in ARGS[kind] + (None, 'all'):
            c.guard('%s, %s' % (kind, arg), lambda: body(kind, arg))
            if arg in ('pos', 'vel', 'mass', None):
                c.guard('%s, %s, two components' % (kind, arg), lambda: body(kind, arg, 2))

    def world(v):
        w = session(c)
        s = build(w, 'B', v)
        want = w_default(w) if v == 'numbers' else 'B'
        rd = types(w)
        def obs():
            got = observe(w, s, rd)
            return {n: t for n, t in got.items() if '.geom' not in n and ' argument ' not in n}
        expect(obs(), want, v, 'World', v + ' world')
        for k in range(1 if v == 'joints' else 2):
            step(w, s)
            expect(obs(), want, v + ':step', 'World.step', v + ' world after a step')
            expect({'argument %d of LCP call %d' % (q, j): t for j, ts in enumerate(s.types) for q, t in ts if t is not None}, want, v + ':lcp',
                   'PdipmEngine.solve_dynamics', v + ' world')
        casts(w, v + ' world')
        w.done()
    for v in VARIANTS:
        c.guard(v, lambda: world(v))
    contact_scan(c, 'type', type_of, True)
    c.guard('solver', lambda: solver_types(c))
    return c.finish()


def solver_types(c):
    from checks import solver as sv
    for size in ((1, 2, 2, 1), (2, 2, 2, 0)):
        nb, nz, ni, ne = size
        w = sv.session(c, 0)
        pr = sv.Prob(w, 'a', *size, sym_q=True)
        o = sv.function_object(w)

        def stub(ip, st, f, args, kw):
            env = dict(zip([a.arg for a in f.node.args.args], args))
            if 'S_LU' in env and 'R' in env:
                w.fn(sv.P, 'factor_kkt', env['S_LU'], env['R'], pr.T('dl', nb, ni), st=st)
            return TupV([pr.T('x', nb, nz), pr.T('n', nb, ne) if ne else None, pr.T('l', nb, ni), pr.T('s', nb, ni)])
        w.ip.overrides['forward'] = stub
        ret = w.call(o, 'forward', pr.Q, pr.p, pr.G, pr.h, pr.A, pr.b, pr.F)
        got = {'the solution': types(w)(ret)}
        for n, v in zip('QpGhAbF', w.items(w.call(o, 'backward', pr.T('g', nb, nz)))):
            if isinstance(v, Ten):
                got['the gradient of ' + n] = types(w)(v)
        bad = {n: t for n, t in got.items() if t is not None and t != {'B'}}
        for n, t in bad.items():
            c.viol('solver:' + n, 'LCPFunction.backward', '%s has type %s' % (n, ', '.join(map(str, t))), 'the type of the problem')
        if not bad:
            c.ok('types of solution and gradients %r' % (size,))
        w.done()

    def run(size):
        def one(o):
            w, pr, tr = sv.iteration(c, size, 1, 1)
            w.ip.oracle = o
            try:
                ret = w.fn(sv.P, 'forward', pr.Q, pr.p, pr.G, pr.h, pr.A, pr.b, pr.F, Opaque(('QLU',)), Opaque(('SLU',)), Opaque(('R',)),
                           eps=S('tol'), max_iter=R.c(1), not_improved_lim=R.c(1), verbose=R.c(-1))
            except AbsRaise:
                return [('raises', [])]
            finally:
                w.ip.oracle = None
            out = []
            for n, d in tr.types + [('result %d' % k, lib.lift_dt(v)) for k, v in enumerate(w.items(o.restrict(ret))) if isinstance(v, Ten)]:
                if d == 'B':
                    out.append(('ok', 'types inside the iteration'))
                else:
                    out.append(('viol', 'iteration:' + n, 'pdipm.forward', 'the %s of the iteration has type %s' % (n, d), 'the type of the problem', d))
            return out + [('called', sorted(w.ip.called))]
        sv.collect_(c, 'types of the iteration %r' % (size,), explore(one, sv.one_order if False else None))
    for size in ((1, 2, 2, 1), (1, 2, 1, 0)):
        run(size)


# ------------------------------------------------------------ C21
def flat(w, v, d=0):
    """The elements of a list of objects, in order."""
    out = []
    try:
        for x in w.items(v):
            if isinstance(x, Obj):
                out.append(S('object', x.addr))
            elif isinstance(x, (Ref, TupV)) and d < 3:
                y = flat(w, x, d + 1)
                if y is None:
                    return None
                out += [R.c(len(y))] + y
            elif isinstance(x, Ten):
                out += w.vals(x)
            elif x is None:
                out.append(S('None'))
            elif isinstance(x, R):
                out.append(undet(x))
            else:
                out.append(S(type(x).__name__))
    except Imprecise:
        return None
    return out


def fields(w, s):
    """Numbers stored in bodies, joints, forces, geometries, engine and world."""
    rd = numbers(w)
    out = {}
    objs = [('World', s.world)]
    for i, b in enumerate(s.bodies):
        objs.append(('body %d %s' % (i, b.cls.name), b))
        g = w.st.heap.get((b.addr, 'geom'))
        if isinstance(g, Obj):
            objs.append(('body %d %s.geom' % (i, b.cls.name), g))
        fs = w.st.heap.get((b.addr, 'forces'))
        for k, f in enumerate(w.items(fs) if fs is not None else []):
            objs.append(('body %d %s.forces[%d]' % (i, b.cls.name, k), f))
    for i, j in enumerate(s.joints):
        objs.append(('joint %d %s' % (i, j.cls.name), j))
    for n, o in objs:
        if not isinstance(o, Obj):
            continue
        for (a, f), v in list(w.st.heap.items()):
            if a == o.addr and isinstance(f, str) and not f.startswith('_'):
                if f == 'no_contact' and isinstance(v, Ref):
                    v = TupV(sorted(w.items(v), key=repr))
                try:
                    x = rd(v)
                except Imprecise:
                    x = None
                if x is None and isinstance(v, Ref):
                    x = flat(w, v)
                if x is not None:
                    out['%s.%s' % (n, f)] = x
    for i, ct in enumerate(w.items(w.attr(s.world, 'contacts'))):
        t, a, b = w.items(ct)
        for k, x in enumerate(w.items(t)):
            out['contact %d.%d' % (i, k)] = rd(x)
        out['contact %d bodies' % i] = [a, b]
    return out


def look(w, s, phase):
    """[(observer, thing called)] of everything that only looks."""
    w.cur = s.tag
    scr = Opaque(('screen',))
    out = []
    for b in s.bodies:
        out.append((b.cls.name + '.draw', lambda b=b: w.call(b, 'draw', scr, pixels_per_meter=S('ppm'))))
        out.append((b.cls.name + '.draw', lambda b=b: w.call(b, 'draw', scr)))
        out.append((b.cls.name + '.apply_forces', lambda b=b: w.call(b, 'apply_forces', S('time'))))
    for j in s.joints:
        out.append((j.cls.name + '.draw', lambda j=j: w.call(j, 'draw', scr, pixels_per_meter=S('ppm'))))
        out.append((j.cls.name + '.draw', lambda j=j: w.call(j, 'draw', scr)))
        out.append((j.cls.name + '.J', lambda j=j: w.call(j, 'J')))
    for m in W_CALLS:
        out.append(('World.' + m, lambda m=m: w.call(s.world, m)))
    out.append(('World.apply_forces', lambda: w.call(s.world, 'apply_forces', S('time'))))
    out.append(('Recorder.record', lambda: w.call(s.recorder, 'record', S('now'))))
    return out


def c21():
    c = Check('C21', 'observers', 'stored numbers before and after every observer (drawing, recording, reading system matrices and forces), repeated results, and '
              'whole observed histories compared with unobserved ones')
    wh = lambda n: n

    def final(w, s):
        return observe(w, s, numbers(w))

    def run(v):
        steps = 1 if v == 'joints' else 2
        w = session(c)
        s = build(w, 'B', v)
        for _ in range(steps):
            step(w, s)
        ref = final(w, s)
        w.done()
        w = session(c)
        s = build(w, 'B', v)
        s.recorder = w.new('Recorder', S('rdt'), Opaque(('screen',)))
        rd = numbers(w)
        for k in range(steps + 1):
            phase = 'created' if k == 0 else 'after step %d' % k
            before = fields(w, s)
            results = {}
            bad = set()
            for n, fn in look(w, s, phase) * 2:
                r = fn()
                now = fields(w, s)
                if n not in bad and any(path_eq(now.get(f, []), before[f]) is not None for f in before):
                    f = [f for f in before if path_eq(now.get(f, []), before[f]) is not None][0]
                    c.viol('%s:%s:%s' % (n, v, f), n, '%s world, %s: %s changes %s' % (v, phase, n, f), clip(before[f]), clip(now.get(f)))
                    bad.add(n)
                    before = now
                elif n not in bad:
                    c.obl.append(('%s keeps %d quantities' % (n, len(before)), 'discharged'))
            step(w, s) if k < steps else None
        compare(c, '%s world, observed history' % v, 'history:' + v, wh, final(w, s), ref, '%s world looked at' % v)
        w.done()
    for v in VARIANTS:
        c.guard(v, lambda: run(v))

    def loop(v, mode):
        n = 1 if v == 'joints' else 2
        res = []
        for m in ('plain', mode):
            w = session(c)
            w.ip.ext_over['pygame.event.get'] = lambda ip, st, args, kw: ip.new_list(st, [])
            s = build(w, 'B', v)
            w.setattr(s.world, 't', ZERO)
            w.setattr(s.world, 'dt', ONE)
            kw = dict(run_time=R.c(n))
            if m == 'plain':
                kw['screen'] = None
            else:
                kw['screen'] = Opaque(('screen',))
                kw['pixels_per_meter'] = S('ppm')
            if m == 'recorded':
                kw['recorder'] = w.new('Recorder', S('rdt'), kw['screen'])
            w.ip.call(w.get('lcp_physics.physics.world', 'run_world'), [s.world], kw, w.st)
            res.append(final(w, s))
            w.done()
        compare(c, 'run_world of a %s world, %s' % (v, mode), 'run:%s:%s' % (v, mode), lambda n: 'run_world', res[1], res[0], '%s world run %s instead of unobserved' % (v, mode))
    for v in VARIANTS:
        for mode in ('drawn', 'recorded'):
            c.guard('run_world, %s, %s' % (v, mode), lambda: loop(v, mode))
    return c.finish()


CHECKS = {'C20': c20, 'C21': c21, 'C23': c23, 'C30': c30}

"""C14 - C16, C28: the step loop of a world."""
from sa.phys import *
from sa.report import Check
from checks.world import world3, J1, J2, F, C
from checks.engine import post_ok, capture, cmp_arg, lcp_args, matvec

KINDS3 = ('Circle', 'Rect', 'Hull')
JOINTS = [('no joints', []), ('joints', [J2(0, 1), F(1, 2), C('TotalConstraint', 0)]),
          ('one-body joints', [J1(1), C('XConstraint', 0), C('YConstraint', 2), C('RotConstraint', 0), J2(2, 0)])]


def feasible(g):
    if isinstance(g, bool):
        return g
    return any(l is True for _, l in leaves(g))


def implies(g, h):
    return not feasible(b_and(g, b_not(h)))


def pens(poses, k):
    return R.atom(Atom('pen', k, *poses))


def poses_of(w, bs, st=None):
    out = []
    for b in bs:
        out += w.vals(w.attr(b, 'p', st), st)
    return out


def contacts_hook(w, bs, nc, log=None):
    """Abstract collision detection: nc contacts whose penetrations depend on the poses alone."""
    def hook(ip, st, o, args, kw):
        data = args[0]
        world = w.items(data, st)[0]
        ps = poses_of(w, bs, st)
        if log is not None:
            log.append((st.clone(), ps))
        lst = ip.getattr(world, 'contacts', st)
        app = ip.getattr(lst, 'append', st)
        for k in range(nc):
            pen = lift(lambda *xs: pens(xs, k), *ps)
            t = TupV([w.ip and lib.mk(ip, st, (2,), [S('n%d' % k, j) for j in range(2)], 'B'),
                      lib.mk(ip, st, (2,), [S('p%d' % k, j) for j in range(2)], 'B'),
                      lib.mk(ip, st, (2,), [S('q%d' % k, j) for j in range(2)], 'B'),
                      lib.mk(ip, st, (), [pen], 'B')])
            ip.call(app, [TupV([t, R.c(0), R.c(1 + k)])], {}, st)
    return hook


def snap(w, o, st):
    """The numeric attributes of an object (tensors, numbers, lists of tensors)."""
    out = {}
    for (a, f), v in st.heap.items():
        if a != o.addr or not isinstance(f, str):
            continue
        x = numeric(w, v, st)
        if x is not None:
            out[f] = x
    g = st.heap.get((o.addr, 'geom'))
    if isinstance(g, Obj):
        for f in ('%pos', '%quat', '%rot'):
            v = st.heap.get((g.addr, f))
            if v is not None:
                x = numeric(w, v, st)
                if x is not None:
                    out['geom' + f] = x
    return out


def numeric(w, v, st):
    l = first_leaf(v)
    if isinstance(v, DD) and not all(isinstance(x, (R, bool)) for x in all_leaves(v)):
        ls = all_leaves(v)
        if all(isinstance(x, Ten) for x in ls) and len({x.shape for x in ls}) == 1:
            return w.vals(v, st)
        return None
    if isinstance(l, R):
        return [undet(v)]
    if isinstance(l, Ten):
        return w.vals(v, st)
    if isinstance(l, TupV):
        out = []
        for x in l.items:
            n = numeric(w, x, st)
            if n is None:
                return None
            out += n
        return out
    if isinstance(l, Ref) and l.kind == 'list':
        try:
            its = w.items(v, st)
        except Imprecise:
            return None
        if its is None:
            return None
        out = []
        for x in its:
            n = numeric(w, x, st)
            if n is None:
                return None
            out += n
        return out
    return None


def setup(w, js, nc, strict, post=False, log=None, kinds=KINDS3):
    """A world at an arbitrary time, its bodies and joints, and hooks for the engine."""
    world, bs, jo = world3(w, [j[0] for j in js], kinds=kinds, dt=S('Wdt'), tol=S('tol'), post_stab=post,
                           strict_no_penetration=strict, eps=S('eps'))
    w.setattr(world, 't', S('t'))
    calls = []

    def solve(ip, st, fn, args, kw):
        a = list(args)
        calls.append({'world': a[1] if len(a) > 1 else kw.get('world'), 'dt': a[2] if len(a) > 2 else kw.get('dt'),
                      'st': st.clone(), 'kind': 'solve'})
        return lib.mk(ip, st, (9,), syms('nv', 9), 'B')

    def postf(ip, st, fn, args, kw):
        calls.append({'world': args[1] if len(args) > 1 else kw.get('world'), 'st': st.clone(), 'kind': 'post'})
        sh = postf.shape
        return lib.mk(ip, st, sh, syms('dp', 9), 'B')
    postf.shape = (9,)
    w.ip.overrides['PdipmEngine.solve_dynamics'] = solve
    w.ip.overrides['PdipmEngine.post_stabilization'] = postf
    w.ip.collide_hook = contacts_hook(w, bs, nc, log)
    w.call(world, 'find_contacts')
    return world, bs, jo, calls, postf


def one_motion(w, world, bs, jo, st0, v, T):
    """Reference: from state st0, one motion of duration T with velocities v."""
    st = st0.clone()
    w.call(world, 'set_v', lib.mk(w.ip, st, (9,), v, 'B'), st=st)
    for b in bs:
        w.call(b, 'move', T, st=st)
    for j in jo:
        w.call(j, 'move', T, st=st)
    return st


def compare(c, w, text, key, objs, st_a, st_ref, given=True, what=''):
    for name, o in objs:
        a, r = snap(w, o, st_a), snap(w, o, st_ref)
        for f in sorted(set(a) | set(r)):
            if f not in a or f not in r:
                continue
            d = path_eq(a[f], r[f], given)
            c.eq(d is None, '%s: %s.%s' % (text, name, f), '%s:%s.%s' % (key, o.cls.name, f), site(w, o, f),
                 '%s: %s.%s %s (%s)' % (text, name, f, what, d and d[0]), d and d[1], d and d[2])


def loop_maps(w):
    """(initial values, back-edge values) of the loop-head unknowns of every analysed loop."""
    out = []
    for li in w.ip.loop_info:
        if li['back'] is None:
            continue
        mi, mb = {}, {}
        for k, (pv, extra) in li['phis'].items():
            for a, path in w.ip.phi_names(pv, extra).items():
                i = w.ip.comp_of(li['base'].heap.get(k, UNDEF), path, li['base'])
                b = w.ip.comp_of(li['back'].heap.get(k, UNDEF), path, li['back'])
                if i is not None:
                    mi[a] = i
                if b is not None:
                    mb[a] = b
        out.append((mi, mb, li))
    return out


def scal(w, v, st=None):
    return w.vals(v, st)[0] if not isinstance(v, (R, DD)) else undet(v)


def pen_ok(poses, nc, tol):
    g = True
    for k in range(nc):
        g = b_and(g, c_le(pens(poses, k), tol))
    return g


def c14():
    c = Check('C14', 'no penetration accepted', 'gated value numbering of the step loop over abstract collision detection; the path condition of '
              'every exit must imply that all penetrations at the final poses are within tolerance')
    for strict in (True, False):
        text = 'strict' if strict else 'non-strict'
        # construction
        w = W(c)

        def start():
            bs = [w.body(k, 'b%d' % i) for i, k in enumerate(KINDS3)]
            w.ip.collide_hook = contacts_hook(w, bs, 2)
            w.st.guard = True
            world = w.new('World', w.lst(bs), strict_no_penetration=strict, tol=S('tol'))
            ok = pen_ok(poses_of(w, bs), 2, S('tol'))
            if strict:
                c.eq(implies(w.st.guard, ok), 'strict: start refused', 'start:strict', 'World.__init__',
                     'a strict world starts with penetrating contacts', ok, w.st.guard)
                c.eq(implies(ok, w.st.guard), 'strict: start allowed', 'start:strict:allowed', 'World.__init__',
                     'a strict world without excess penetration does not start', ok, w.st.guard)
            else:
                c.eq(w.st.guard is True, 'non-strict: start allowed', 'start:nonstrict', 'World.__init__', 'a non-strict world refuses to start')
        c.guard(text + ' start', start)
        w.done()
        for post in (False, True):
            for jname, js in (JOINTS[0], JOINTS[1]):
                w = W(c)
                txt = '%s%s, %s' % (text, ' with post-stabilisation' if post else '', jname)

                def run():
                    log = []
                    world, bs, jo, calls, postf = setup(w, js, 2, strict, post, log)
                    w.st.guard = True
                    del w.ip.loop_info[:]
                    w.call(world, 'step_dt', S('dt'))
                    if w.st.dead:
                        c.viol(txt + ':dead', 'World.step_dt', '%s: a step never ends' % txt)
                        return
                    st = w.st
                    if post:
                        ps = [x for x in calls if x['kind'] == 'post']
                        if not ps:
                            c.undecided(txt + ': no post-stabilisation call found')
                            return
                        st = ps[-1]['st']
                        T = None
                    T = sub(scal(w, w.attr(world, 't')), S('t'))
                    ok = pen_ok(poses_of(w, bs, st), 2, S('tol'))
                    if not strict:
                        ok = b_or(ok, c_lt(T, mul(R.c(Fraction(1, 4)), S('Wdt'))))
                    c.eq(implies(st.guard, ok), txt + ': exits', txt + ':exit', 'World.step_dt',
                         '%s: a step can end with a contact beyond tolerance' % txt, ok, st.guard)
                    if not post:
                        # the contacts left in the world are those of the final poses
                        cs = w.items(w.attr(world, 'contacts'))
                        got = [w.vals(w.items(w.items(x)[0])[3])[0] for x in cs]
                        exp = [pens(poses_of(w, bs), k) for k in range(2)]
                        d = path_eq(got, exp, w.st.guard)
                        c.eq(d is None, txt + ': contacts at final poses', txt + ':contacts', 'World.step_dt',
                             '%s: the contacts kept are not those of the final poses' % txt, d and d[1], d and d[2])
                    # back edges: half the duration, only when refused
                    n = 0
                    for mi, mb, li in loop_maps(w):
                        if not any(a in mi for a in all_atoms(T)):
                            continue
                        n += 1
                        T0, T1 = undet(subst(T, mi)), undet(subst(T, mb))
                        half = mul(R.c(Fraction(1, 2)), T)
                        d = path_eq([T1], [half], li['back'].guard)
                        c.eq(d is None, txt + ': halving', txt + ':half', 'World.step_dt', '%s: a refused attempt is not retried with half the time' % txt, half, T1)
                        d = path_eq([T0], [S('dt')])
                        c.eq(d is None, txt + ': first attempt', txt + ':first', 'World.step_dt', '%s: the first attempt is not of the full duration' % txt, 'dt', T0)
                        tried = vadd(poses_of(w, bs, calls[0]['st']), vscale(T, syms('nv', 9)))
                        c.eq(not feasible(b_and(li['back'].guard, pen_ok(tried, 2, S('tol')))), txt + ': retried only when refused', txt + ':back',
                             'World.step_dt', '%s: an attempt within tolerance is refused' % txt)
                    c.eq(n > 0, txt + ': retry loop', txt + ':retry', 'World.step_dt', '%s: no retry with a smaller duration' % txt)
                c.guard(txt, run)
                w.done()
    # without contacts the first attempt is accepted
    w = W(c)

    def run():
        world, bs, jo, calls, _ = setup(w, [], 0, True)
        w.call(world, 'step_dt', S('dt'))
        d = path_eq([scal(w, w.attr(world, 't'))], [add(S('t'), S('dt'))])
        c.eq(d is None, 'no contacts: accepted', 'free', 'World.step_dt', 'a step without contacts is not accepted at once')
    c.guard('no contacts', run)
    w.done()
    return c.finish()


def c15():
    c = Check('C15', 'retries leave no trace', 'inductive loop analysis of step_dt: the state after any number of rejected attempts equals, '
              'attribute by attribute, one motion of the accepted duration from the state at the start of the step')
    for strict in (True, False):
        for nc in (0, 1):
            if nc == 0 and not strict:
                continue
            for jname, js in JOINTS:
                w = W(c)
                txt = '%s, %d contacts, %s' % ('strict' if strict else 'non-strict', nc, jname)

                def run():
                    world, bs, jo, calls, _ = setup(w, js, nc, strict)
                    w.st.guard = True
                    st0 = w.st.clone()
                    w.call(world, 'step_dt', S('dt'))
                    sc = [x for x in calls if x['kind'] == 'solve']
                    if not c.eq(len(sc) >= 1, txt + ': solved', txt + ':solve', 'World.step_dt', '%s: the dynamics are not solved' % txt):
                        return
                    if not sc:
                        return
                    for x in sc:
                        d = path_eq(poses_of(w, bs, x['st']), poses_of(w, bs, st0))
                        c.eq(d is None, txt + ': solved at the start', txt + ':solvepose', 'World.step_dt', '%s: the dynamics are solved at a pose other than the start\'s' % txt, d and d[1], d and d[2])
                        d = path_eq(w.vals(w.call(world, 'get_v', st=x['st']), x['st']), w.vals(w.call(world, 'get_v', st=st0), st0))
                        c.eq(d is None, txt + ': solved with the start velocities', txt + ':solvev', 'World.step_dt', '%s: the dynamics are solved from other velocities' % txt, d and d[1], d and d[2])
                        d = path_eq([scal(w, x['dt'], x['st'])], [S('dt')])
                        c.eq(d is None, txt + ': solved for the step', txt + ':solvedt', 'World.step_dt', '%s: the dynamics are solved for another duration' % txt, 'dt', x['dt'])
                        d = path_eq([scal(w, w.attr(world, 't', x['st']), x['st'])], [S('t')])
                        c.eq(d is None, txt + ': solved at the start time', txt + ':solvet', 'World.step_dt', '%s: the dynamics are solved at another time' % txt, d and d[1], d and d[2])
                    T = sub(scal(w, w.attr(world, 't')), S('t'))
                    ref = one_motion(w, world, bs, jo, st0, syms('nv', 9), T)
                    objs = [('body %d' % i, b) for i, b in enumerate(bs)] + [('%s %d' % (j.cls.name, i), j) for i, j in enumerate(jo)]
                    compare(c, w, txt, jname, objs, w.st, ref, w.st.guard, 'is not what one motion of the accepted duration gives')
                    v = w.vals(w.call(world, 'get_v'))
                    d = path_eq(v, syms('nv', 9), w.st.guard)
                    c.eq(d is None, txt + ': velocities', jname + ':v', 'World.step_dt', '%s: velocities after the step are not those solved' % txt, d and d[1], d and d[2])
                    if nc == 0:
                        d = path_eq([T], [S('dt')], w.st.guard)
                        c.eq(d is None, txt + ': full duration', jname + ':T', 'World.step_dt', '%s: an accepted first attempt does not last dt' % txt, 'dt', T)
                c.guard(txt, run)
                w.done()
    return c.finish()


def c16():
    c = Check('C16', 'post-stabilisation', 'state before and after the position correction in step_dt, and the system the correction solves')
    where = 'World.step_dt'
    for jname, js in JOINTS:
        for shape in ((9,), (1, 9)):
            for nc in (0, 1):
                w = W(c)
                txt = 'on, %s, %d contacts, correction of shape %r' % (jname, nc, shape)

                def run():
                    world, bs, jo, calls, postf = setup(w, js, nc, True, True)
                    postf.shape = shape
                    w.st.guard = True
                    st0 = w.st.clone()
                    w.call(world, 'step_dt', S('dt'))
                    ps = [x for x in calls if x['kind'] == 'post']
                    if not c.eq(len(ps) == 1, txt + ': corrected once', jname + ':once', where, '%s: %d position corrections' % (txt, len(ps))):
                        return
                    T = sub(scal(w, w.attr(world, 't')), S('t'))
                    ref = one_motion(w, world, bs, jo, st0, syms('nv', 9), T)
                    objs = [('body %d' % i, b) for i, b in enumerate(bs)] + [('%s %d' % (j.cls.name, i), j) for i, j in enumerate(jo)]
                    pst = ps[0]['st']
                    g = w.st.guard
                    if nc == 0:
                        compare(c, w, txt + ', before the correction', jname + ':before', [o for o in objs], pst, ref, g, 'is not the accepted state')
                    half = vscale(Fraction(1, 2), syms('dp', 9))
                    ref2 = one_motion(w, world, bs, jo, pst, half, T)
                    w.call(world, 'set_v', lib.mk(w.ip, ref2, (9,), syms('nv', 9), 'B'), st=ref2)
                    compare(c, w, txt + ', after the correction', jname + ':after', objs, w.st, ref2, g, 'is not the accepted state moved by half the correction')
                    d = path_eq(w.vals(w.call(world, 'get_v')), syms('nv', 9), g)
                    c.eq(d is None, txt + ': velocities kept', jname + ':v', where, '%s: the velocities are not those of the dynamics solve' % txt, d and d[1], d and d[2])
                    cs = w.items(w.attr(world, 'contacts'))
                    got = [w.vals(w.items(w.items(x)[0])[3])[0] for x in cs]
                    exp = [pens(poses_of(w, bs), k) for k in range(nc)]
                    d = path_eq(got, exp, g)
                    c.eq(d is None, txt + ': contacts recomputed', jname + ':contacts', where, '%s: contacts are not those of the corrected poses' % txt, d and d[1], d and d[2])
                    if nc == 0:
                        d = path_eq([T], [S('dt')], g)
                        c.eq(d is None, txt + ': time', jname + ':t', where, '%s: the correction changes the simulated time' % txt, 'dt', T)
                c.guard(txt, run)
                w.done()
        w = W(c)

        def run():
            world, bs, jo, calls, postf = setup(w, js, 1, True, False)
            w.call(world, 'step_dt', S('dt'))
            c.eq(not [x for x in calls if x['kind'] == 'post'], 'off, %s' % jname, jname + ':off', where, 'off, %s: a position correction happens' % jname)
        c.guard('off, ' + jname, run)
        w.done()
    # the correction itself
    from checks.engine import LCPSCENES, SCENES
    for name, js in SCENES[:3] + SCENES[4:5]:
        w = W(c)

        def run():
            world, bs, jo = world3(w, [j[0] for j in js])
            post_ok(c, w, world, bs, jo, name)
        c.guard('correction, ' + name, run)
        w.done()
    from checks.world import with_contacts, PAIRS
    for name, js in LCPSCENES:
        for pname, pairs in PAIRS[1:4]:
            w = W(c)
            text = 'correction with contacts %s, %s' % (pname, name)

            def run():
                wh = 'PdipmEngine.post_stabilization'
                world, bs, jo = with_contacts(w, pairs, [j[0] for j in js])
                w.call(world, 'set_v', w.vec('V', 9))
                log = []
                capture(w, 9, log)
                M = w.vals(w.call(world, 'M'))
                Jc = w.vals(w.call(world, 'Jc'))
                res = w.vals(w.call(world, 'restitutions'))
                Je = w.call(world, 'Je')
                neq = w.shape(Je)[0]
                J = w.vals(Je) if neq else []
                nc = len(pairs)
                V = syms('V', 9)
                r = w.call(w.attr(world, 'engine'), 'post_stabilization', world)
                if not c.eq(len(log) == 1, text + ': one solve', text + ':calls', wh, '%s: %d LCP solves' % (text, len(log))):
                    return
                Q, p, G, h, A, b, Fm = lcp_args(log[0][1], log[0][2])
                cmp_arg(c, w, text, 'Q', Q, M, (1, 9, 9), wh)
                cmp_arg(c, w, text, 'p', p, [ZERO] * 9, (1, 9), wh)
                cmp_arg(c, w, text, 'G', G, Jc, (1, nc, 9), wh)
                jv = matvec(Jc, nc, 9, V)
                cmp_arg(c, w, text, 'h', h, [sub(x, mul(x, e)) for x, e in zip(jv, res)], (1, nc), wh)
                cmp_arg(c, w, text, 'A', A, J, (1, neq, 9) if neq else None, wh)
                cmp_arg(c, w, text, 'b', b, matvec(J, neq, 9, V) if neq else [], (1, neq) if neq else None, wh)
                cmp_arg(c, w, text, 'F', Fm, [ZERO] * (nc * nc), (1, nc, nc), wh)
                d = path_eq(w.vals(r), [neg(S('z1', i)) for i in range(9)])
                c.eq(d is None, text + ': result', text + ':x', wh, '%s: the correction is not the negated solution' % text, d and d[1], d and d[2])
            c.guard(text, run)
            w.done()
    return c.finish()


def c28():
    c = Check('C28', 'durations', 'path conditions and arguments of every step_dt / step call in World.step and run_world, with loop-head unknowns for time')
    where = 'World.step'
    for mode in ('fixed', 'fixed positional', 'ordinary', 'ordinary explicit'):
        w = W(c)

        def run():
            world, bs, jo = world3(w, [], dt=S('Wdt'))
            w.setattr(world, 't', S('t'))
            w.st.guard = c_lt(ZERO, S('Wdt'))
            log = []
            w.ip.logs = [log]

            def sdt(ip, st, fn, args, kw):
                d = args[1] if len(args) > 1 else kw.get('dt')
                t = ip.getattr(args[0], 't', st)
                log.append((t, d, st.guard))
                ip.setattr(args[0], 't', add(t, R.atom(ip.fresh('acc'))), st)
                return None
            w.ip.overrides['World.step_dt'] = sdt
            w.ip.overrides['World.step'] = None
            w.ip.overrides.pop('World.step')
            g0 = w.st.guard
            if mode == 'fixed':
                w.call(world, 'step', fixed_dt=True)
            elif mode == 'fixed positional':
                w.call(world, 'step', True)
            elif mode == 'ordinary':
                w.call(world, 'step')
            else:
                w.call(world, 'step', fixed_dt=False)
            end = add(S('t'), S('Wdt'))
            c.eq(len(log) > 0, mode + ': steps', mode + ':none', where, '%s: no step is taken' % mode)
            if mode.startswith('ordinary'):
                c.eq(len(log) == 1, mode + ': one step', mode + ':one', where, '%s step: %d attempts of a step' % (mode, len(log)))
                for t, d, g in log:
                    e = path_eq([scal(w, d)], [S('Wdt')], g)
                    c.eq(e is None, mode + ': the world\'s time step', mode + ':dt', where, '%s step does not use the world\'s time step' % mode, 'Wdt', d)
                    c.eq(implies(g0, g), mode + ': always', mode + ':always', where, '%s step is not always taken' % mode)
            else:
                for t, d, g in log:
                    e = path_eq([scal(w, d)], [sub(end, scal(w, t))], g)
                    c.eq(e is None, mode + ': sub-step to the end', mode + ':dt', where, '%s: a sub-step does not aim at the requested end' % mode, sub(end, t), d)
                    c.eq(implies(g, c_lt(scal(w, t), end)), mode + ': not past the end', mode + ':past', where, '%s: a sub-step is taken past the requested end' % mode)
                tf = scal(w, w.attr(world, 't'))
                c.eq(implies(w.st.guard, c_le(end, tf)), mode + ': reaches the end', mode + ':end', where,
                     '%s: stepping stops before the requested end' % mode, c_le(end, tf), w.st.guard)
                # progress: after one sub-step that is not enough another one is taken
                c.eq(len({repr(t) for t, _, _ in log}) > 1 or any(a.tag == 'phi' for t, _, _ in log for lf in all_leaves(t) if isinstance(lf, R)
                                                                          for a in all_atoms(lf)), mode + ': repeated', mode + ':repeat', where, '%s: only one sub-step is taken' % mode)
        c.guard(mode, run)
        w.done()
    wh = 'run_world'
    for screen in (False, True):
        for rec in (False, True):
            for extra in ({}, {'print_time': False}, {'animation_dt': S('adt')}):
                w = W(c)
                txt = 'run_world %s%s%s' % ('drawn' if screen else 'not drawn', ', recorded' if rec else '', (', ' + ','.join(extra)) if extra else '')

                def run():
                    world, bs, jo = world3(w, [J2(0, 1)[0]], dt=S('Wdt'))
                    w.setattr(world, 't', S('t'))
                    log = []
                    w.ip.logs = [log]

                    def stp(ip, st, fn, args, kw):
                        t = ip.getattr(args[0], 't', st)
                        log.append((t, list(args[1:]) + list(kw.values()), st.guard))
                        ip.setattr(args[0], 't', add(t, R.atom(ip.fresh('acc'))), st)
                        return None
                    w.ip.overrides['World.step'] = stp
                    kw = dict(extra)
                    if screen:
                        kw['screen'] = Opaque('screen')
                    if rec:
                        kw['recorder'] = w.new('Recorder', S('rdt'), kw.get('screen', Opaque('screen')))
                    w.fn('lcp_physics.physics.world', 'run_world', world, run_time=S('rt'), **kw)
                    c.eq(len(log) > 0, txt + ': steps', txt + ':none', wh, '%s: the world is not stepped' % txt)
                    for t, a, g in log:
                        c.eq(implies(g, c_lt(scal(w, t), S('rt'))), txt + ': not past', txt + ':past', wh, '%s: stepped although the run time is reached' % txt)
                        c.eq(not a or a == [False], txt + ': ordinary', txt + ':args', wh, '%s: steps are not ordinary steps' % txt)
                    tf = scal(w, w.attr(world, 't'))
                    gd = w.st.guard
                    ok = c_le(S('rt'), tf)
                    if not screen:
                        c.eq(implies(gd, ok), txt + ': runs to the end', txt + ':end', wh, '%s: stops before the run time' % txt, ok, gd)
                    else:
                        # the only other way out is the user closing the window
                        bad = [f for f, l in leaves(b_and(gd, b_not(ok))) if l is True and not any(v and 'event' in repr(cc) for cc, v in f.truth.items())]
                        c.eq(not bad, txt + ': runs to the end', txt + ':end', wh, '%s: stops before the run time without being closed' % txt, None, bad and facts_text(bad[0]))
                c.guard(txt, run)
                w.done()
    return c.finish()


CHECKS = {'C14': c14, 'C15': c15, 'C16': c16, 'C28': c28}

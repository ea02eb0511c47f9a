"""C11 - C13: the dynamics solve; post-stabilisation solve used by C16."""
from sa.phys import *
from sa.report import Check
from checks.world import SCENES, PAIRS, world3, with_contacts, J1, J2, F, C, contact


def add_forces(w, bs, which=(0, 2)):
    """Attach time-dependent opaque forces to some bodies."""
    for i in which:
        fn = PyFn(lambda ip, st, args, kw, i=i: lib.mk(ip, st, (3,), [R.atom(Atom('F', i, j, args[0])) for j in range(3)], 'B'), 'force')
        w.call(bs[i], 'add_force', w.new('ExternalForce', fn, S('k%d' % i)))


def forces(n, which, t):
    out = []
    for i in range(n):
        out += [mul(R.atom(Atom('F', i, j, t)), S('k%d' % i)) for j in range(3)] if i in which else [ZERO] * 3
    return out


def matvec(m, n, cols, v):
    return [dot(m[r * cols:(r + 1) * cols], v) for r in range(n)]


def kkt_solutions(M, Je, neq, nv, u, rhs):
    """x of [[M, s J^T],[r J, 0]] x = [u; r rhs] for the sign conventions of the multiplier."""
    out = []
    if neq == 0:
        inv = lib.inverse_rows([[M[i * nv + j] for j in range(nv)] for i in range(nv)])
        return [[dot(row, u) for row in inv]]
    for s in (-1, 1):
        for r in (1, -1):
            n = nv + neq
            P = [[ZERO] * n for _ in range(n)]
            for i in range(nv):
                for j in range(nv):
                    P[i][j] = M[i * nv + j]
                for j in range(neq):
                    P[i][nv + j] = mul(R.c(s), Je[j * nv + i])
                    P[nv + j][i] = mul(R.c(r), Je[j * nv + i])
            inv = lib.inverse_rows(P)
            b = list(u) + [mul(R.c(r), x) for x in rhs]
            out.append([dot(row, b) for row in inv][:nv])
    return out


def engine_of(w, world):
    return w.attr(world, 'engine')


def solve(w, world, dt):
    e = engine_of(w, world)
    return w.call(e, 'solve_dynamics', world, dt)


def expected_free(w, world, dt, t, which, nb):
    M = w.vals(w.call(world, 'M'))
    Je = w.call(world, 'Je')
    neq = w.shape(Je)[0]
    J = w.vals(Je) if neq else []
    v = w.vals(w.call(world, 'get_v'))
    nv = 3 * nb
    u = vadd(matvec(M, nv, nv, v), vscale(dt, forces(nb, which, t)))
    return kkt_solutions(M, J, neq, nv, u, [ZERO] * neq)


def differs(got, cands):
    ds = []
    for x in cands:
        d = path_eq(got, x)
        if d is None:
            return None
        ds.append(d)
    return ds[0]


def c11():
    c = Check('C11', 'contact-free step', 'value numbering of solve_dynamics with no contacts over symbolic worlds; the solution is '
              'compared, as an opaque linear solve of the extracted system, with the KKT system of the constrained equations of motion')
    for name, js in SCENES:
        for first in (True, False):
            w = W(c)
            text = '%s, %s' % (name, 'first solve' if first else 'later solve')

            def run():
                world, bs, jo = world3(w, [j[0] for j in js])
                w.setattr(world, 't', S('t'))
                add_forces(w, bs)
                w.call(world, 'set_v', w.vec('V', 9))
                if not first:
                    if name not in ('no joints', 'mixed'):
                        return
                    solve(w, world, S('dt0'))
                    for b in bs:
                        w.call(b, 'move', S('dt0'))
                    for j in jo:
                        w.call(j, 'move', S('dt0'))
                    w.setattr(world, 't', S('t'))
                    w.call(world, 'set_v', w.vec('V2', 9))
                exp = expected_free(w, world, S('dt'), S('t'), (0, 2), 3)
                r = solve(w, world, S('dt'))
                got = w.vals(r)
                c.eq(w.shape(r) == (9,), text + ': shape', text + ':shape', 'PdipmEngine.solve_dynamics', '%s: new velocity has shape %r' % (text, w.shape(r)))
                d = differs(got, exp)
                c.eq(d is None, text + ': KKT', text + ':v', 'PdipmEngine.solve_dynamics',
                     '%s: the new velocity is not the solution of M v\' = M v + dt f + J^T l, J v\' = 0 (%s)' % (text, d and d[0]), d and d[1], d and d[2])
            c.guard(text, run)
            w.done()
    # a single free body: the explicit formula
    w = W(c)

    def run():
        b = w.body('Circle', 'b0')
        world = w.new('World', w.lst([b]))
        w.setattr(world, 't', S('t'))
        add_forces(w, [b], (0,))
        v = w.vals(w.attr(b, 'v'))
        m = S('b0.m')
        I_ = mul(R.c(Fraction(1, 2)), mul(m, power(S('b0.r'), 2)))
        f = forces(1, (0,), S('t'))
        exp = [add(x, div(mul(S('dt'), y), k)) for x, y, k in zip(v, f, [I_, m, m])]
        d = path_eq(w.vals(solve(w, world, S('dt'))), exp)
        c.eq(d is None, 'free body', 'free', 'PdipmEngine.solve_dynamics', 'free body: v + dt f / M not obtained', d and d[1], d and d[2])
    c.guard('free body', run)
    w.done()
    return c.finish()


# ------------------------------------------------------------------ LCP capture
def capture(w, nv, log):
    def hook(ip, st, o, args, kw):
        log.append((o, list(args), kw, {f: v for (a, f), v in st.heap.items() if a == o.addr}))
        k = len(log)
        return lib.mk(ip, st, (1, nv), [S('z%d' % k, i) for i in range(nv)], 'B')
    w.ip.obj_call_hook = hook
    # the modern calling convention of autograd functions
    def apply_(ip, st, args, kw):
        return hook(ip, st, Obj(ip.new(), None), args, kw)
    w.ip.ext_over['torch.autograd.Function.apply'] = apply_


def arg_vals(w, v):
    if v is None:
        return None
    return w.vals(v), w.shape(v)


def cmp_arg(c, w, text, what, v, exp, shape, where):
    if shape is None or not exp:
        n = None if v is None else len(w.vals(v))
        c.eq(not n, '%s: %s empty' % (text, what), '%s:%s' % (text, what), where, '%s: %s should be empty' % (text, what), [], n)
        return
    if v is None:
        c.viol('%s:%s' % (text, what), where, '%s: %s missing' % (text, what))
        return
    sh = w.shape(v)
    if not c.eq(sh == shape, '%s: %s shape' % (text, what), '%s:%s:shape' % (text, what), where,
                '%s: %s has shape %r, expected %r' % (text, what, sh, shape)):
        return
    d = path_eq(w.vals(v), exp)
    at = ''
    if d:
        i = int(d[0].split()[1])
        at = 'row %d column %d' % (i // shape[-1], i % shape[-1])
    c.eq(d is None, '%s: %s' % (text, what), '%s:%s' % (text, what), where, '%s: %s is wrong at %s' % (text, what, at), d and d[1], d and d[2])


LCPSCENES = [('free bodies', []), ('one joint', [J2(0, 1)]), ('mixed joints', [C('YConstraint', 2), F(2, 0), J1(1)])]


def lcp_args(args, kw):
    names = ['Q', 'p', 'G', 'h', 'A', 'b', 'F']
    out = dict(zip(names, args))
    out.update(kw)
    return [out.get(n) for n in names]


def c12():
    c = Check('C12', 'contact LCP', 'the seven arguments of the LCP solver call in solve_dynamics, as symbolic block matrices, for '
              'contacts between every ordered body pair with and without joints; the result is the negated solution')
    where = 'PdipmEngine.solve_dynamics'
    for jname, js in LCPSCENES:
        for pname, pairs in PAIRS:
          for again in (False, True):
            if not pairs or (js and pname in ('repeated pair',)) or (again and (pname != 'two' or not js)):
                continue
            w = W(c)
            text = '%s, contacts %s%s' % (jname, pname, ', second solve' if again else '')

            def run():
                world, bs, jo = with_contacts(w, pairs, [j[0] for j in js])
                w.setattr(world, 't', S('t'))
                add_forces(w, bs)
                log = []
                capture(w, 9, log)
                if again:
                    # an earlier solve with as many contacts elsewhere, other velocities and another step
                    w.setattr(world, 'contacts', w.lst([contact(w, k + 20, (a + 1) % 3, (b + 1) % 3) for k, (a, b) in enumerate(pairs)]))
                    w.call(world, 'set_v', w.vec('V0', 9))
                    solve(w, world, S('dt0'))
                    w.setattr(world, 't', S('t'))
                    for b in bs:
                        w.call(b, 'move', S('dt0'))
                    for j in jo:
                        w.call(j, 'move', S('dt0'))
                    w.setattr(world, 'contacts', w.lst([contact(w, k, a, b) for k, (a, b) in enumerate(pairs)]))
                    log.clear()
                w.call(world, 'set_v', w.vec('V', 9))
                M = w.vals(w.call(world, 'M'))
                Jc, Jf, mu, E = [w.vals(w.call(world, m)) for m in ('Jc', 'Jf', 'mu', 'E')]
                res = w.vals(w.call(world, 'restitutions'))
                Je = w.call(world, 'Je')
                neq = w.shape(Je)[0]
                J = w.vals(Je) if neq else []
                nc, nf = len(pairs), 2 * len(pairs)
                V = syms('V', 9)
                r = solve(w, world, S('dt'))
                if not c.eq(len(log) == 1, text + ': one solve', text + ':calls', where, '%s: the LCP solver is called %d times' % (text, len(log))):
                    return
                Q, p, G, h, A, b, Fm = lcp_args(log[0][1], log[0][2])
                cmp_arg(c, w, text, 'Q', Q, M, (1, 9, 9), where)
                cmp_arg(c, w, text, 'p', p, vadd(matvec(M, 9, 9, V), vscale(S('dt'), forces(3, (0, 2), S('t')))), (1, 9), where)
                n = nc + nf + nc
                cmp_arg(c, w, text, 'G', G, Jc + Jf + [ZERO] * (9 * nc), (1, n, 9), where)
                hv = [mul(x, y) for x, y in zip(matvec(Jc, nc, 9, V), res)] + [ZERO] * (nf + nc)
                cmp_arg(c, w, text, 'h', h, hv, (1, n), where)
                cmp_arg(c, w, text, 'A', A, J, (1, neq, 9) if neq else None, where)
                cmp_arg(c, w, text, 'b', b, [ZERO] * neq, (1, neq) if neq else None, where)
                Fx = [[ZERO] * n for _ in range(n)]
                for i in range(nf):
                    for k in range(nc):
                        Fx[nc + i][nc + nf + k] = E[i * nc + k]
                        Fx[nc + nf + k][nc + i] = neg(E[i * nc + k])
                for i in range(nc):
                    for k in range(nc):
                        Fx[nc + nf + i][k] = mu[i * nc + k]
                cmp_arg(c, w, text, 'F', Fm, [x for row in Fx for x in row], (1, n, n), where)
                d = path_eq(w.vals(r), [neg(S('z1', i)) for i in range(9)])
                c.eq(d is None, text + ': result negated', text + ':x', where, '%s: the new velocity is not the negated solution' % text, d and d[1], d and d[2])
                c.eq(w.shape(r) == (9,), text + ': result shape', text + ':xs', where, '%s: new velocity has shape %r' % (text, w.shape(r)))
                mi = log[0][3].get('max_iter')
                if mi is not None:
                    em = w.ip.getattr(engine_of(w, world), 'max_iter', w.st, None, True)
                    c.eq(em is None or mi == em, text + ': max_iter', text + ':max_iter', where, 'the engine\'s max_iter does not reach the solver', em, mi)
            c.guard(text, run)
            w.done()
    return c.finish()


# ------------------------------------------------------------------ C13
def c13():
    c = Check('C13', 'cached inverse', 'state dependence of J() of every joint class marked static; static_inverse of worlds as a function '
              'of the joint list; second and later solves compared with those of a fresh engine')
    from checks.joints import KINDS, make
    for kind in KINDS:
        w = W(c)

        def run():
            b1, b2 = w.body('Circle', 'a'), w.body('Rect', 'b')
            j = make(w, kind, b1, b2)
            static = w.attr(j, 'static')
            J0 = [None if x is None else w.vals(x) for x in w.items(w.call(j, 'J'))]
            w.call(b1, 'set_p', w.vec('q1', 3))
            w.call(b2, 'set_p', w.vec('q2', 3))
            w.setattr(b1, 'v', w.vec('V1', 3))
            w.call(j, 'move', S('dt'))
            Jn = [None if x is None else w.vals(x) for x in w.items(w.call(j, 'J'))]
            same_ = all((a is None) == (b is None) and (a is None or path_eq(a, b) is None) for a, b in zip(J0, Jn))
            if static is True:
                c.eq(same_, '%s: static, J constant' % kind, kind + ':static', '%s.J' % j.cls.name,
                     '%s is marked static but its Jacobian changes with the pose' % kind, J0, Jn)
            elif static is False:
                c.ok('%s: not static' % kind)
            else:
                c.undecided('%s: static is %r' % (kind, static))
        c.guard(kind, run)
        w.done()
    stat = ['XConstraint', 'YConstraint', 'RotConstraint', 'TotalConstraint']
    dyn = {'Joint1': J1(0), 'Joint2': J2(0, 1), 'FixedJoint': F(1, 2)}
    lists = [('none', [])] + [('only %s' % s, [C(s, 0)]) for s in stat] + [('all static', [C(s, i % 3) for i, s in enumerate(stat)])]
    for d, j in dyn.items():
        lists += [('only ' + d, [j]), (d + ' first', [j, C('XConstraint', 0)]), (d + ' last', [C('XConstraint', 2), C('TotalConstraint', 1), j]),
                  (d + ' between', [C('YConstraint', 0), j, C('RotConstraint', 1)])]
    for name, js in lists:
        w = W(c)

        def run():
            world, bs, jo = world3(w, [j[0] for j in js])
            allstat = True
            for j in jo:
                s = w.attr(j, 'static')
                allstat = allstat and s is True
            add_forces(w, bs)
            w.setattr(world, 't', S('t'))
            w.call(world, 'set_v', w.vec('V', 9))
            # first solve (may fill the cache)
            solve(w, world, S('dt0'))
            for rnd in (1, 2):
                for b in bs:
                    w.call(b, 'move', S('dt%d' % rnd))
                for j in jo:
                    w.call(j, 'move', S('dt%d' % rnd))
                w.call(world, 'set_v', w.vec('V%d' % rnd, 9))
                exp = expected_free(w, world, S('dt'), S('t'), (0, 2), 3)
                got = w.vals(solve(w, world, S('dt')))
                d = differs(got, exp)
                c.eq(d is None, '%s: solve %d' % (name, rnd + 1), '%s:solve' % name, 'PdipmEngine.solve_dynamics',
                     'joints %s: solve %d uses a stale system (%s)' % (name, rnd + 1, d and d[0]), d and d[1], d and d[2])
            if allstat is False:
                si = w.ip.getattr(world, 'static_inverse', w.st, None, True)
                c.eq(si is not True, name + ': reuse disabled', name + ':flag', 'World.__init__', 'joints %s: a non-static joint leaves the inverse marked static' % name)
            # the position correction must not use (or leave) a stale system either
            post_ok(c, w, world, bs, jo, name)
            w.call(world, 'set_v', w.vec('V9', 9))
            exp = expected_free(w, world, S('dt'), S('t'), (0, 2), 3)
            d = differs(w.vals(solve(w, world, S('dt'))), exp)
            c.eq(d is None, '%s: solve after correction' % name, '%s:solve after post' % name, 'PdipmEngine.solve_dynamics',
                 'joints %s: the solve after a position correction uses a stale system' % name, d and d[1], d and d[2])
        c.guard(name, run)
        w.done()
    # correction before the first solve
    for name, js in (('all static', [C('XConstraint', 0), C('TotalConstraint', 1)]), ('mixed', [C('XConstraint', 2), J2(0, 1)])):
        w = W(c)

        def run():
            world, bs, jo = world3(w, [j[0] for j in js])
            w.setattr(world, 't', S('t'))
            add_forces(w, bs)
            post_ok(c, w, world, bs, jo, name + ' (correction first)')
            for b in bs:
                w.call(b, 'move', S('dt1'))
            for j in jo:
                w.call(j, 'move', S('dt1'))
            w.call(world, 'set_v', w.vec('V', 9))
            exp = expected_free(w, world, S('dt'), S('t'), (0, 2), 3)
            d = differs(w.vals(solve(w, world, S('dt'))), exp)
            c.eq(d is None, '%s: solve after a first correction' % name, '%s:post first' % name, 'PdipmEngine.post_stabilization',
                 'joints %s: the solve after a first position correction uses a stale system' % name, d and d[1], d and d[2])
        c.guard(name, run)
        w.done()
    # two worlds sharing the engine class do not share the cache
    w = W(c)

    def run():
        wa, ba, _ = world3(w, [])
        solve(w, wa, S('dt'))
        bs = [w.body('Circle', 'c%d' % i) for i in range(3)]
        wb = w.new('World', w.lst(bs))
        w.setattr(wb, 't', S('t'))
        w.call(wb, 'set_v', w.vec('V', 9))
        exp = expected_free(w, wb, S('dt'), S('t'), (), 3)
        d = differs(w.vals(solve(w, wb, S('dt'))), exp)
        c.eq(d is None, 'second world', 'second world', 'PdipmEngine.solve_dynamics', 'a second world is solved with the first world\'s system', d and d[1], d and d[2])
    c.guard('second world', run)
    w.done()
    return c.finish()


def post_ok(c, w, world, bs, jo, name, contacts=0):
    """The contact-free position correction: M dp = J^T l, J dp = -J v."""
    M = w.vals(w.call(world, 'M'))
    Je = w.call(world, 'Je')
    neq = w.shape(Je)[0]
    J = w.vals(Je) if neq else []
    w.call(world, 'set_v', w.vec('U', 9))
    v = syms('U', 9)
    rhs = [neg(x) for x in matvec(J, neq, 9, v)] if neq else []
    exp = kkt_solutions(M, J, neq, 9, [ZERO] * 9, rhs)
    r = w.call(engine_of(w, world), 'post_stabilization', world)
    got = w.vals(r)
    d = differs(got, exp)
    c.eq(d is None, name + ': position correction', name + ':post', 'PdipmEngine.post_stabilization',
         'joints %s: the correction is not the least-mass velocity with J dp = -J v (%s)' % (name, d and d[0]), d and d[1], d and d[2])


CHECKS = {'C11': c11, 'C12': c12, 'C13': c13}

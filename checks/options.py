"""C22 - options of constructors; exports."""
import ast

import sa.terms as TT
from sa.phys import *
from sa.report import Check, clip
from sa.forks import explore

ORDER = {'Circle': ('pos', 'rad', 'vel', 'mass', 'restitution', 'fric_coeff', 'eps', 'col', 'thickness'),
         'Rect': ('pos', 'dims', 'vel', 'mass', 'restitution', 'fric_coeff', 'eps', 'col', 'thickness'),
         'Hull': ('ref_point', 'vertices', 'vel', 'mass', 'restitution', 'fric_coeff', 'eps', 'col', 'thickness')}
SIZE = {'pos': 3, 'ref_point': 2, 'dims': 2, 'vel': 3}
REQ = 2
FORMS = ('number', 'tensor', 'tuple')
ATTR = {'mass': 'mass', 'restitution': 'restitution', 'fric_coeff': 'fric_coeff', 'eps': 'eps', 'rad': 'rad', 'dims': 'dims'}


def mark(*n):
    return TupV([S('colour', *n, i) for i in range(3)])


def value(w, arg, form, size=None, n=''):
    """The value of an argument, written as numbers / lists, tuples or a tensor."""
    k = SIZE.get(arg, 0) if size is None else size
    if arg == 'col':
        return mark(n)
    if arg == 'thickness':
        return S(n + 'thick')
    if arg == 'vertices':
        it = [value(w, 'u%d' % i, form, 2, n) for i in range(3)]
        return TupV(it) if form == 'tuple' else w.lst(it)
    if k == 0:
        if form == 'tensor1':
            return w.ten((1,), [S(n + arg)])
        return w.sc(n + arg) if form == 'tensor' else S(n + arg)
    e = [S(n + arg, i) for i in range(k)]
    return w.vec(n + arg, k) if form == 'tensor' else TupV(e) if form == 'tuple' else w.lst(e)


def num(w, v):
    """Flat numbers of a stored value, None for anything else."""
    l = first_leaf(v)
    if isinstance(l, Ten):
        return w.vals(v)
    if isinstance(l, bool):
        return [v]
    if isinstance(l, R):
        return [undet(v)]
    if isinstance(l, (TupV, Ref)):
        out = []
        for x in w.items(v):
            n = num(w, x)
            if n is None:
                return None
            out += n
        return out
    return None


def state(w, o):
    out = {}
    for (a, f), v in list(w.st.heap.items()):
        if a == o.addr and isinstance(f, str) and not f.startswith('_'):
            try:
                x = num(w, v)
            except Imprecise:
                x = None
            if x is not None:
                out[f] = x
    g = w.st.heap.get((o.addr, 'geom'))
    if isinstance(g, Obj):
        for f in ('%pos', '%quat', '%rot', '%radius', '%lengths'):
            if (g.addr, f) in w.st.heap:
                x = num(w, w.st.heap[(g.addr, f)])
                if x is not None:
                    out['geom' + f] = x
    return out


def diff(c, key, where, text, got, exp):
    bad = 0
    for n in exp:
        if n.startswith('__'):
            continue
        if n not in got:
            c.viol('%s:%s' % (key, n), where, '%s: %s is missing' % (text, n))
            bad += 1
            continue
        d = path_eq(got[n], exp[n])
        if d is not None:
            c.viol('%s:%s' % (key, n), where, '%s: %s differs (%s)' % (text, n, d[0]), d[1], d[2])
            bad += 1
    if not bad:
        c.obl.append(('%s: %d quantities' % (text, len(exp)), 'discharged'))
    return not bad


def defaults(w):
    h = w.cls('Defaults').addr
    d = lambda n: w.st.heap[(h, n)]
    return {'vel': TupV([ZERO] * 3), 'mass': ONE, 'restitution': d('RESTITUTION'), 'fric_coeff': d('FRIC_COEFF'), 'eps': d('EPSILON')}


def c22():
    c = Check('C22', 'options', 'every constructor evaluated with every option alone, in every notation, by keyword and by position; attributes, geometry, drawing calls, '
              'engine and contact handler compared with the option; exports and names resolved')

    def sess():
        w = W(c)
        w.ip.hide_values = True
        return w

    def build(w, kind, forms, pos=False, two=()):
        kw = {a: value(w, a, f, 2 if a in two else None) for a, f in forms.items()}
        if pos:
            return w.new(kind, *[kw[a] for a in ORDER[kind] if a in kw])
        return w.new(kind, **kw)

    def check_attrs(w, b, kind, given, where, key, text, two=()):
        exp, d = {}, defaults(w)
        for a in ORDER[kind][REQ:7]:
            v = [S(a, i) for i in range(2 if a in two else 3)] if a == 'vel' and a in given else [S(a)] if a in given else num(w, d[a])
            if a == 'vel':
                exp['v'] = [ZERO] + v if len(v) == 2 else v
            else:
                exp[ATTR[a]] = v
        m = exp['mass'][0]
        for a, n in (('rad', 1), ('dims', 2)):
            if a in ORDER[kind]:
                exp[a] = [S(a)] if n == 1 else [S(a, 0), S(a, 1)]
        if 'col' in given:
            exp['col'] = num(w, mark(''))
        if 'thickness' in given:
            exp['thickness'] = [S('thick')]
        got = state(w, b)
        diff(c, key, where, text, got, exp)
        M = got.get('M')
        if M is not None and len(M) == 9:
            c.eq(same(M[4], m) and same(M[8], m), text + ': mass in the mass matrix', key + ':M', where, '%s: the mass matrix does not hold the mass' % text, m, [M[4], M[8]])

    def draws(w, b, kind, given, where, key, text):
        seen = []

        def rec(name):
            def f(ip, st, args, kw):
                seen.append((name, list(args) + list(kw.values())))
                return Opaque(('rect', name, len(seen)))
            return f
        for n in ('line', 'circle', 'polygon', 'rect', 'aaline', 'lines', 'aalines', 'ellipse', 'arc'):
            w.ip.ext_over['pygame.draw.' + n] = rec(n)
        w.call(b, 'draw', Opaque(('screen',)))
        def has(args, v):
            for x in args:
                try:
                    y = num(w, x)
                except Imprecise:
                    continue
                if y is not None and len(y) == len(v) and all(same(p, q) for p, q in zip(y, v)):
                    return True
            return False
        want = [(n, v) for n, v in (('col', num(w, mark(''))), ('thickness', [S('thick')])) if n in given]
        if want:
            ok = any(all(has(args, v) for _, v in want) for _, args in seen)
            n = ' and '.join(n for n, _ in want)
            c.eq(ok, '%s: %s used for drawing' % (text, n), key + ':draw:' + n, kind + '.draw', '%s: nothing is drawn with the given %s' % (text, n))

    def body(kind):
        wh = kind + '.__init__'
        req = ORDER[kind][:REQ]
        ref = None
        # all options, every notation, by keyword and by position
        for form in FORMS:
            for pos in (False, True):
                w = sess()
                forms = {a: form for a in ORDER[kind]}
                b = build(w, kind, forms, pos)
                text = '%s, all options as %ss by %s' % (kind, form, 'position' if pos else 'keyword')
                check_attrs(w, b, kind, forms, wh, '%s:%s:%s' % (kind, form, pos), text)
                draws(w, b, kind, forms, wh, '%s:%s:%s' % (kind, form, pos), text)
                s = state(w, b)
                if ref is None:
                    ref = s
                else:
                    diff(c, '%s:alike:%s:%s' % (kind, form, pos), wh, text + ' compared with numbers', s, ref)
                w.done()
        # one argument in each other notation
        for a in ORDER[kind][:7]:
            for form in ('tensor', 'tuple') + (('tensor1',) if a == 'mass' else ()):
                if form == 'tuple' and a not in SIZE and a != 'vertices':
                    continue
                w = sess()
                forms = {x: 'number' for x in ORDER[kind]}
                forms[a] = form
                b = build(w, kind, forms)
                s = state(w, b)
                diff(c, '%s:alike:%s:%s' % (kind, a, form), wh, '%s, only %s a %s, compared with numbers' % (kind, a, form), s, ref)
                w.done()
        # only the required arguments, and one option at a time
        bare = None
        for a in (None,) + ORDER[kind][REQ:]:
            for form in ('number', 'tensor', 'tuple'):
                if form == 'tuple' and (a is None or a not in SIZE):
                    continue
                w = sess()
                forms = {x: form for x in req}
                if a:
                    forms[a] = form
                text = '%s with %s' % (kind, 'only %s (%s)' % (a, form) if a else 'no option (%s)' % form)
                b = build(w, kind, forms)
                check_attrs(w, b, kind, forms, wh, '%s:only:%s' % (kind, a), text)
                draws(w, b, kind, forms, wh, '%s:only:%s' % (kind, a), text)
                s = state(w, b)
                if a is None:
                    if bare is None:
                        bare = s
                    else:
                        diff(c, '%s:bare' % kind, wh, text + ' compared with numbers', s, bare)
                elif a in ('col', 'thickness'):
                    diff(c, '%s:bare:%s' % (kind, a), wh, text + ' compared with no option', {k: v for k, v in s.items()}, {k: v for k, v in bare.items() if k != a})
                w.done()
        # positions and velocities of two components, in every notation
        two = ('pos', 'vel') if 'pos' in req else ('vel',)
        ref2 = None
        for form in FORMS:
            w = sess()
            forms = {a: form for a in ORDER[kind]}
            b = build(w, kind, forms, two=two)
            text = '%s, two components as %ss' % (kind, form)
            check_attrs(w, b, kind, forms, wh, '%s:two:%s' % (kind, form), text, two)
            s = state(w, b)
            if ref2 is None:
                ref2 = s
            else:
                diff(c, '%s:two:alike:%s' % (kind, form), wh, text + ' compared with numbers', s, ref2)
            w.done()
    for kind in ORDER:
        c.guard(kind, body, kind)

    # ---------------------------------------------------------------- forces
    def forces():
        fn = lambda: PyFn(lambda ip, st, args, kw: lib.mk(ip, st, (3,), [R.atom(Atom('F', j, args[0])) for j in range(3)], 'B'), 'force')
        exp = [mul(R.atom(Atom('F', j, S('time'))), S('k')) for j in range(3)]
        for form in ('number', 'tensor', 'tensor1'):
            for how in ('position', 'keyword'):
                for base in ('Circle', 'Rect', 'Hull'):
                    w = sess()
                    k = value(w, 'k', form)
                    f = w.new('ExternalForce', fn(), k) if how == 'position' else w.new('ExternalForce', force_func=fn(), multiplier=k)
                    b = w.body(base, 'a')
                    w.call(b, 'add_force', f)
                    got = w.vals(w.call(f, 'force', S('time')))
                    text = 'ExternalForce on a %s, multiplier as %s by %s' % (base, form, how)
                    c.eq(same_list(got, exp), text, 'force:mult:%s:%s' % (form, how), 'ExternalForce.__init__', text + ': the force is not the function times the multiplier', exp, got)
                    k = value(w, 'g', form)
                    f = w.new('Gravity', k) if how == 'position' else w.new('Gravity', g=k)
                    w.call(b, 'add_force', f)
                    got = w.vals(w.call(f, 'force', S('time')))
                    e2 = [ZERO, ZERO, mul(S('a.m'), S('g'))]
                    text = 'Gravity on a %s, g as %s by %s' % (base, form, how)
                    c.eq(same_list(got, e2), text, 'force:g:%s:%s' % (form, how), 'Gravity.__init__', text + ': the force is not mass times g', e2, got)
                    w.done()
        # function and multiplier left out are independent
        w = sess()
        b = w.body('Circle', 'a')
        f0, f1, f2 = w.new('ExternalForce'), w.new('ExternalForce', multiplier=S('k')), w.new('ExternalForce', force_func=fn())
        for f in (f0, f1, f2):
            w.call(b, 'add_force', f)
        down = w.vals(w.fn('lcp_physics.physics.forces', 'down_force', S('time')))
        d = undet(w.vals(w.attr(f0, 'multiplier'))[0])
        for f, e, n in ((f0, vscale(d, down), 'without arguments'), (f1, vscale(S('k'), down), 'with a multiplier only'),
                        (f2, vscale(d, [R.atom(Atom('F', j, S('time'))) for j in range(3)]), 'with a function only')):
            got = w.vals(w.call(f, 'force', S('time')))
            c.eq(same_list(got, e), 'ExternalForce ' + n, 'force:default:' + n, 'ExternalForce.__init__', 'ExternalForce %s gives another force' % n, e, got)
        w.done()
    c.guard('forces', forces)

    # ---------------------------------------------------------------- worlds
    OPTS = {'dt': lambda w: S('dt'), 'eps': lambda w: S('weps'), 'tol': lambda w: S('tol'), 'fric_dirs': lambda w: R.c(2), 'post_stab': lambda w: True,
            'strict_no_penetration': lambda w: False}
    WA = {'strict_no_penetration': 'strict_no_pen'}
    DN = {'dt': 'DT', 'eps': 'EPSILON', 'tol': 'TOL', 'fric_dirs': 'FRIC_DIRS', 'post_stab': 'POST_STABILIZATION'}
    WORDER = ('bodies', 'constraints', 'dt', 'engine', 'contact_callback', 'eps', 'tol', 'fric_dirs', 'post_stab', 'strict_no_penetration')

    def scene(w):
        return [w.body('Circle', 'a'), w.body('Rect', 'b')]

    def cname(o):
        return o.cls.name if isinstance(o, Obj) and o.cls is not None else repr(o)[:60]

    def world(given, pos=False):
        w = sess()
        bs = scene(w)
        kw = {k: OPTS[k](w) for k in given}
        h = w.cls('Defaults').addr
        d = lambda n: w.st.heap[(h, n)]
        if pos:
            full = {'bodies': w.lst(bs), 'constraints': w.lst([]), 'engine': d('ENGINE'), 'contact_callback': d('CONTACT'), **kw}
            wd = w.new('World', *[full[k] for k in WORDER])
        else:
            wd = w.new('World', w.lst(bs), **kw)
        text = 'World with %s%s' % (', '.join(given) or 'no option', ' by position' if pos else '')
        got = state(w, wd)
        exp = {}
        for k in OPTS:
            v = kw[k] if k in kw else True if k == 'strict_no_penetration' else d(DN[k])
            exp[WA.get(k, k)] = [v] if isinstance(v, bool) else num(w, v)
        diff(c, 'world:%s:%s' % ('+'.join(given), pos), 'World.__init__', text, got, exp)
        e, cc = w.attr(wd, 'engine'), w.attr(wd, 'contact_callback')
        c.eq(cname(e) == d('ENGINE'), text + ': default engine', 'world:engine', 'World.__init__', 'the engine is not the default one', d('ENGINE'), cname(e))
        c.eq(cname(cc) == d('CONTACT'), text + ': default contact handler', 'world:contact', 'World.__init__', 'the contact handler is not the default one', d('CONTACT'), cname(cc))
        w.done()
    c.guard('World', world, ())
    for k in OPTS:
        c.guard('World ' + k, world, (k,))
    c.guard('World, all', world, tuple(OPTS))
    c.guard('World, all by position', world, tuple(OPTS), True)

    def stabilised(on):
        w = sess()
        calls = []
        made = []

        def solve(ip, st, args, kw):
            calls.append('solve')
            return w.ten((6,), [S('newv', i) for i in range(6)])

        def stab(ip, st, args, kw):
            calls.append('stab')
            return w.ten((1, 6), [S('dp', i) for i in range(6)])

        def mk(ip, st, args, kw):
            o = Obj(ip.new(), None)
            st.heap[(o.addr, 'solve_dynamics')] = PyFn(solve, 'solve_dynamics')
            st.heap[(o.addr, 'post_stabilization')] = PyFn(stab, 'post_stabilization')
            made.append(o)
            return o
        handler = PyFn(lambda ip, st, args, kw: None, 'handler')
        seen = []

        def collide(ip, st, o, args, kw):
            seen.append(args[1] if len(args) > 1 else None)
            return None
        w.ip.collide_hook = collide
        bs = scene(w)
        wd = w.new('World', w.lst(bs), engine=PyFn(mk, 'engine'), contact_callback=PyFn(lambda ip, st, args, kw: handler, 'mk'), post_stab=on, dt=S('dt'))
        c.eq(w.attr(wd, 'engine') in made, 'World with an engine class', 'world:engineclass', 'World.__init__', 'the engine class given is not used')
        w.call(wd, 'step')
        c.eq(calls == (['solve', 'stab'] if on else ['solve']), 'World with its own engine, post_stab=%s' % on, 'world:calls:%s' % on, 'World.step_dt',
             'post_stab=%s: the engine is called %r in one step' % (on, calls))
        c.eq(seen and all(x is handler for x in seen), 'World with its own contact handler', 'world:handler', 'World.find_contacts', 'the contact handler given is not used')
        v = w.vals(w.call(wd, 'get_v'))
        c.eq(same_list(v, [S('newv', i) for i in range(6)]), 'velocity of the given engine', 'world:newv', 'World.step_dt', 'the velocity of the given engine is not used', None, v)
        w.done()
    for on in (False, True):
        c.guard('World with own engine and handler', stabilised, on)

    def named():
        w = sess()
        n = 0
        for m, base, opt, attr in (('engines', 'Engine', 'engine', 'engine'), ('contacts', 'ContactHandler', 'contact_callback', 'contact_callback')):
            mv = w.modv('lcp_physics.physics.' + m)
            for (a, name), v in list(w.st.heap.items()):
                if a == mv.frame and isinstance(v, ClassV) and name != base and base in [k.name for k in v.mro()][1:]:
                    for x in (name, v):
                        w2 = sess()
                        v2 = w2.st.heap[(w2.modv('lcp_physics.physics.' + m).frame, name)]
                        bs = scene(w2)
                        wd = w2.new('World', w2.lst(bs), **{opt: name if isinstance(x, str) else v2})
                        got = cname(w2.attr(wd, attr))
                        c.eq(got == name, '%s %s by %s' % (opt, name, 'name' if isinstance(x, str) else 'class'), 'named:%s:%s' % (opt, name), 'utils.get_instance',
                             '%s=%s gives %s' % (opt, name, got))
                        n += 1
                        w2.done()
        # classes from elsewhere
        for opt in ('engine', 'contact_callback'):
            w2 = sess()
            bs = scene(w2)
            k = w2.cls('ExternalForce')
            try:
                wd = w2.new('World', w2.lst(bs), **{opt: k})
                got = w2.attr(wd, opt)
            except AbsRaise:
                got = None
            c.eq(isinstance(got, Obj) and got.cls is k, '%s class from elsewhere' % opt, 'named:foreign:' + opt, 'utils.get_instance', 'a class given as %s is not used' % opt)
            c.sessions.remove(w2)
            w2.done()
        c.eq(n >= 4, 'engines and handlers by name and class', 'named:none', 'engines', 'no engine or contact handler found')
        w.done()
    c.guard('engines and handlers', named)

    def strict():
        for on in (None, True, False):
            for deep in (True, False):
                w = sess()

                def collide(ip, st, o, args, kw):
                    world = w.items(args[0], st)[0]
                    t = TupV([w.ten((2,), syms('n', 2)), w.ten((2,), syms('p', 2)), w.ten((2,), syms('q', 2)), w.ten((), [S('pen')])])
                    ip.call(ip.getattr(ip.getattr(world, 'contacts', st), 'append', st), [TupV([t, ZERO, ONE])], {}, st)
                w.ip.collide_hook = collide
                g = c_lt(S('tol'), S('pen'))
                w.st.guard = g if deep else b_not(g)
                kw = {} if on is None else {'strict_no_penetration': on}
                n0 = len(w.ip.raised)
                try:
                    w.new('World', w.lst(scene(w)), tol=S('tol'), **kw)
                    ok = not w.st.dead
                except AbsRaise:
                    ok = False
                some = any(r.guard is not False for r in w.ip.raised[n0:])
                want = deep and on is not False
                c.eq((not ok) == want and (some if want else True), 'World strict=%s, contact %s the tolerance' % (on, 'beyond' if deep else 'within'), 'strict:%s:%s' % (on, deep),
                     'World.__init__', 'strict_no_penetration=%s: a contact %s the tolerance is %s' % (on, 'beyond' if deep else 'within', 'accepted' if ok else 'refused'))
                c.sessions.remove(w)
                w.done()
    c.guard('strict worlds', strict)

    def iterations():
        for given in (None, 'position', 'keyword'):
            w = sess()
            seen = []

            def lcp(ip, st, o, args, kw):
                seen.append((list(args), dict(kw), ip.getattr(o, 'max_iter', st, None, True) if isinstance(o, Obj) and o.cls is not None else None))
                return w.ten((1, 6), [S('z', i) for i in range(6)])
            w.ip.obj_call_hook = lcp
            w.ip.ext_over['torch.autograd.Function.apply'] = lambda ip, st, args, kw: lcp(ip, st, Obj(ip.new(), None), args, kw)

            def collide(ip, st, o, args, kw):
                world = w.items(args[0], st)[0]
                t = TupV([w.ten((2,), syms('n', 2)), w.ten((2,), syms('p', 2)), w.ten((2,), syms('q', 2)), w.ten((), [R.c(-1)])])
                ip.call(ip.getattr(ip.getattr(world, 'contacts', st), 'append', st), [TupV([t, ZERO, ONE])], {}, st)
            w.ip.collide_hook = collide
            wd = w.new('World', w.lst(scene(w)))
            e = w.new('PdipmEngine') if given is None else w.new('PdipmEngine', S('iters')) if given == 'position' else w.new('PdipmEngine', max_iter=S('iters'))
            w.call(e, 'solve_dynamics', wd, S('dt'))
            if given is not None:
                def has(v):
                    return isinstance(first_leaf(v), R) and same(v, S('iters'))
                ok = bool(seen) and all(has(mi) or any(has(x) for x in a) or any(has(x) for x in k.values()) for a, k, mi in seen)
                c.eq(ok, 'max_iter of the engine by ' + given, 'maxiter:' + given, 'PdipmEngine.__init__', 'max_iter does not reach the LCP solver', 'iters',
                     clip([mi for _, _, mi in seen]))
            w.done()
    c.guard('engine options', iterations)

    # ---------------------------------------------------------------- names
    def exports():
        from sa.program import Program
        p = Program(('lcp_physics',))
        w = sess()
        n = 0
        for mod in sorted(p.mods):
            m = p.mods[mod]
            al = None
            for x in m.tree.body:
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in x.targets):
                    al = x
            if al is None:
                continue
            mv = w.modv(mod)
            names = w.items(w.st.heap[(mv.frame, '__all__')])
            for nm in names:
                v = w.st.heap.get((mv.frame, nm))
                if v is None and mod + '.' + nm in p.mods:
                    v = w.modv(mod + '.' + nm)
                n += 1
                if c.eq(v is not None, '%s.%s' % (mod, nm), 'export:%s.%s' % (mod, nm), mod, '%s exports %s, which does not exist' % (mod, nm)):
                    got = v.name if isinstance(v, ClassV) else v.node.name if isinstance(v, Func) else None
                    if got is not None:
                        c.eq(got == nm, '%s.%s is %s' % (mod, nm, got), 'export:is:%s.%s' % (mod, nm), mod, '%s.%s is %s' % (mod, nm, got))
        want = ('Defaults', 'Body', 'Circle', 'Rect', 'Hull', 'World', 'run_world', 'down_force', 'ExternalForce', 'Gravity', 'Joint', 'FixedJoint', 'XConstraint',
                'YConstraint', 'RotConstraint', 'TotalConstraint')
        for nm in want:
            c.eq((w.pkg.frame, nm) in w.st.heap, 'lcp_physics.physics.' + nm, 'export:pkg:' + nm, 'lcp_physics.physics', 'the physics package does not offer ' + nm)
        w.done()
    c.guard('exports', exports)

    def interface():
        """a world with the default engine steps and stabilises, in and out of contact"""
        for nc in (0, 1):
            for post in (False, True):
                w = sess()
                h = w.cls('Defaults').addr
                name = w.st.heap[(h, 'ENGINE')]
                base = w.cls(name).bases[0].name if w.cls(name).bases else 'Engine'

                def lcp(ip, st, o, args, kw):
                    n = w.shape(args[0] if args else kw['Q'], st)[-1]
                    return lib.mk(ip, st, (1, n), [S('z', i) for i in range(n)], 'B')
                w.ip.obj_call_hook = lcp
                w.ip.ext_over['torch.autograd.Function.apply'] = lambda ip, st, args, kw: lcp(ip, st, None, args, kw)

                def collide(ip, st, o, args, kw):
                    world = w.items(args[0], st)[0]
                    for _ in range(nc):
                        t = TupV([lib.mk(ip, st, (2,), syms(x, 2), 'B') for x in 'npq'] + [lib.mk(ip, st, (), [R.c(-1)], 'B')])
                        ip.call(ip.getattr(ip.getattr(world, 'contacts', st), 'append', st), [TupV([t, ZERO, ONE])], {}, st)
                w.ip.collide_hook = collide
                text = 'step of a world with the default engine, %d contacts, post_stab=%s' % (nc, post)
                w.st.guard = b_and(w.st.guard, c_le(R.c(-1), S('tol')))
                try:
                    wd = w.new('World', w.lst(scene(w)), post_stab=post, tol=S('tol'))
                    w.call(wd, 'step')
                    ok = not w.st.dead
                except AbsRaise:
                    ok = False
                bad = [r for r in w.ip.raised if r.guard is not False and (r.kind == 'implicit' or 'NotImplemented' in str(r.what))]
                c.eq(ok and not bad, text, 'iface:%d:%s' % (nc, post), bad[0].func if bad else 'World.step', text + ' raises %s' % (bad[0].what if bad else 'an exception'))
                c.sessions.remove(w)
                w.done()
    c.guard('engine interface', interface)
    return c.finish()


CHECKS = {'C22': c22}

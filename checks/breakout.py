"""C29 - the Breakout experiment."""
import sa.terms as TT
from sa.phys import *
from sa.report import Check, clip

RB = 'run_breakout'
ENC = 'encoder'


def sess(c):
    w = W(c)
    w.ip.search = ('experiments/breakout',)
    w.ip.hide_values = True
    if w.ip.load(RB, w.st) is None:
        raise Imprecise('experiments/breakout/run_breakout.py does not exist')
    return w


def f(w, name, *a, mod=RB, **kw):
    return w.fn(mod, name, *a, **kw)


def nums(w, v):
    """Flat numbers of a nest of lists, tuples, tensors and numbers."""
    l = first_leaf(v)
    if isinstance(l, Ten):
        return w.vals(v)
    if isinstance(l, R):
        return [undet(v)]
    out = []
    for x in w.items(v):
        out += nums(w, x)
    return out


class Params:
    def __init__(self, w, n, form, tag=''):
        vec = (lambda nm, k: w.vec(tag + nm, k)) if form == 'tensors' else (lambda nm, k: w.lst([S(tag + nm, i) for i in range(k)]))
        self.paddle = w.lst([vec('pp', 2), vec('pd', 2)])
        self.blocks = w.lst([w.lst([vec('bp%d' % i, 2), vec('bd%d' % i, 2)]) for i in range(n)])
        self.ball = w.lst([vec('cp', 2), w.sc(tag + 'cr') if form == 'tensors' else S(tag + 'cr')])
        P = lambda nm, k: [S(tag + nm, i) for i in range(k)]
        self.x_paddle = P('pp', 2) + P('pd', 2)
        self.x_blocks = [P('bp%d' % i, 2) + P('bd%d' % i, 2) for i in range(n)]
        self.x_ball = P('cp', 2) + [S(tag + 'cr')]
        self.flat = self.x_paddle + [x for b in self.x_blocks for x in b] + self.x_ball


def c29():
    c = Check('C29', 'Breakout state vectors', 'packing, unpacking, world construction, commands and simulated states of the Breakout experiment evaluated on symbolic '
              'parameters for one to six blocks')
    N = 6

    def pack(n, form):
        w = sess(c)
        p = Params(w, n, form)
        v = f(w, 'to_vector', p.paddle, p.blocks, p.ball)
        got = w.vals(v)
        text = '%d blocks as %s' % (n, form)
        c.eq(len(got) == 4 * n + 7 and len(w.shape(v)) == 1, 'length of the state vector, ' + text, 'len', 'run_breakout.to_vector', 'the state vector of %s has %d components' % (text, len(got)))
        back = w.items(f(w, 'from_vector', v))
        for k, (nm, x) in enumerate((('paddle', p.x_paddle), ('blocks', [y for b in p.x_blocks for y in b]), ('ball', p.x_ball))):
            g = nums(w, back[k])
            c.eq(same_list(g, x), '%s read back, %s' % (nm, text), 'roundtrip:' + nm, 'run_breakout.to_vector/from_vector', 'the %s parameters read back differ, %s' % (nm, text), x, g)
        c.eq(len(w.items(back[1])) == n, 'number of blocks read back, ' + text, 'count', 'run_breakout.from_vector', '%d blocks are read back as %d' % (n, len(w.items(back[1]))))
        # the parts have the form the constructor of the world takes
        shapes = [[w.shape(x) if isinstance(first_leaf(x), Ten) else None for x in w.items(q)] for q in [back[0], back[2]] + list(w.items(back[1]))]
        c.eq(all(s[0] == (2,) for s in shapes) and shapes[1][1] in ((), (1,)) and all(s[1] == (2,) for k, s in enumerate(shapes) if k != 1), 'shapes read back, ' + text,
             'shapes', 'run_breakout.from_vector', 'the parameters read back have shapes %r' % (shapes,))
        again = w.vals(f(w, 'to_vector', *back))
        c.eq(same_list(again, got), 'packed again, ' + text, 'again', 'run_breakout.to_vector/from_vector', 'packing the parameters read gives another vector, ' + text, got, again)
        w.done()
    for n in range(1, N + 1):
        for form in ('lists', 'tensors'):
            c.guard('pack %d' % n, pack, n, form)

    def empty():
        w = sess(c)
        p = Params(w, 0, 'lists')
        back = w.items(f(w, 'from_vector', f(w, 'to_vector', p.paddle, p.blocks, p.ball)))
        for k, nm, x in ((0, 'paddle', p.x_paddle), (2, 'ball', p.x_ball)):
            g = nums(w, back[k])
            c.eq(same_list(g, x), nm + ' read back without blocks', 'empty:' + nm, 'run_breakout.to_vector/from_vector', 'the %s parameters read back differ without blocks' % nm, x, g)
        w.done()
    c.guard('no blocks', empty)

    def unpack(n):
        w = sess(c)
        v = w.vec('s', 4 * n + 7)
        got = w.vals(f(w, 'to_vector', *w.items(f(w, 'from_vector', v))))
        c.eq(same_list(got, w.vals(v)), 'a vector of %d blocks read and written' % n, 'unpack', 'run_breakout.from_vector', 'reading and writing a state vector changes it', w.vals(v), got)
        w.done()
    for n in range(1, N + 1):
        c.guard('unpack %d' % n, unpack, n)

    # ------------------------------------------------------------ stepping
    def arena(w, order, nb):
        """A world with its own engine; the paddle at the given place among the bodies."""
        kinds = {'ball': ('Circle', 'k'), 'paddle': ('Rect', 'p'), 'wall': ('Rect', 'w')}
        bs, named = [], {}
        for k in order:
            if k == 'blocks':
                named['blocks'] = []
                for i in range(nb):
                    b = w.body('Rect', 'b%d' % i, pos3=True)
                    named['blocks'].append(b)
                    bs.append(b)
            else:
                kind, t = kinds[k]
                named[k] = w.body(kind, t)
                bs.append(named[k])
        n = 3 * len(bs)
        log = []

        def solve(ip, st, args, kw):
            log.append((w.vals(ip.call(ip.getattr(args[0], 'get_v', st), [], {}, st), st), [w.vals(ip.getattr(b, 'v', st), st) for b in bs],
                        args[1] if len(args) > 1 else kw.get('dt')))
            return lib.mk(ip, st, (n,), [S('nv%d' % len(log), i) for i in range(n)], 'B')

        def mk(ip, st, args, kw):
            o = Obj(ip.new(), None)
            st.heap[(o.addr, 'solve_dynamics')] = PyFn(solve, 'solve_dynamics')
            return o
        wd = w.new('World', w.lst(bs), engine=PyFn(mk, 'engine'), dt=ONE)
        return wd, bs, named, log

    ORDERS = (('ball', 'paddle', 'wall', 'blocks'), ('paddle', 'ball', 'blocks', 'wall'), ('wall', 'blocks', 'ball', 'paddle'))

    def command(order, form):
        w = sess(c)
        wd, bs, named, log = arena(w, order, 2)
        k = bs.index(named['paddle'])
        v0 = w.vals(w.call(wd, 'get_v'))
        mk = {'numbers': lambda n: S(n), 'tensors': lambda n: w.sc(n), 'tensors of one': lambda n: w.ten((1,), [S(n)])}[form]
        f(w, 'step_breakout', wd, R.c(k), mk('a'), paddle_vel_x=mk('vx'), paddle_vel_y=mk('vy'), mod=ENC)
        exp = list(v0)
        exp[3 * k + 1], exp[3 * k + 2] = mul(S('vx'), S('a')), mul(S('vy'), S('a'))
        text = 'command to body %d as %s' % (k, form)
        if c.eq(len(log) == 1, 'one step, ' + text, 'cmd:steps', 'encoder.step_breakout', 'a command runs %d steps' % len(log)):
            c.eq(same_list(log[0][0], exp), text, 'cmd:v', 'encoder.step_breakout', 'the velocities commanded are not those of the paddle', exp, log[0][0])
            c.eq(same_list([x for b in log[0][1] for x in b], exp), text + ', bodies', 'cmd:bodies', 'encoder.step_breakout', 'the bodies do not have the velocities commanded', exp, log[0][1])
        w.done()
    for order in ORDERS:
        for form in ('numbers', 'tensors', 'tensors of one'):
            c.guard('command', command, order, form)

    def simulate(order, nb, nsteps):
        w = sess(c)
        wd, bs, named, log = arena(w, order, nb)
        k = bs.index(named['paddle'])
        text = '%d blocks, paddle at %d' % (nb, k)
        for step in range(nsteps):
            before = {id(b): (w.vals(w.attr(b, 'p')), w.vals(w.attr(b, 'rad' if b.cls.name == 'Circle' else 'dims'))) for b in bs}
            log.clear()
            sn = f(w, 'simulate_breakout', w.sc('a'), wd, named['ball'], named['paddle'], w.lst(named['blocks']), R.c(k), paddle_vel_x=w.sc('vx'), paddle_vel_y=w.sc('vy'))
            nv = [S('nv1', i) for i in range(3 * len(bs))]
            after = {id(b): vadd(before[id(b)][0], nv[3 * i:3 * i + 3]) for i, b in enumerate(bs)}
            exp = lambda b: after[id(b)][1:] + before[id(b)][1]
            full = exp(named['paddle']) + [x for b in named['blocks'] for x in exp(b)] + exp(named['ball'])
            got = w.vals(sn)
            c.eq(w.shape(sn) == (1, len(full)), 'shape of the next state, ' + text, 'sim:shape', 'run_breakout.simulate_breakout', 'the next state has shape %r' % (w.shape(sn),))
            c.eq(same_list(got, full), 'next state, ' + text, 'sim:state', 'run_breakout.simulate_breakout', 'the next state is not that of the bodies in the layout of to_vector (%s)' % text, full, got)
            if len(got) == len(full):
                back = w.items(f(w, 'from_vector', w.ten((len(full),), got)))
                for q, (nm, e) in enumerate((('paddle', exp(named['paddle'])), ('blocks', [x for b in named['blocks'] for x in exp(b)]), ('ball', exp(named['ball'])))):
                    g = nums(w, back[q])
                    c.eq(same_list(g, e), 'next %s, %s' % (nm, text), 'sim:' + nm, 'run_breakout.simulate_breakout', 'the next %s parameters differ (%s)' % (nm, text), e, g)
            # the bodies keep the state reported
            for b in [named['paddle'], named['ball']] + named['blocks']:
                g = w.vals(w.attr(b, 'p'))[1:] + w.vals(w.attr(b, 'rad' if b.cls.name == 'Circle' else 'dims'))
                c.eq(same_list(g, exp(b)), 'bodies agree with the state, ' + text, 'sim:bodies', 'run_breakout.simulate_breakout', 'a body does not keep the state reported (%s)' % text, exp(b), g)
        w.done()
    for order in ORDERS:
        for nb in (1, 2, 3):
            c.guard('simulate', simulate, order, nb, 1)
    c.guard('simulate', simulate, ORDERS[0], 2, 2)

    def helper(order):
        w = sess(c)
        w.ip.ext_over['pygame.event.get'] = lambda ip, st, args, kw: ip.new_list(st, [])
        wd, bs, named, log = arena(w, order, 1)
        w.setattr(wd, 't', ZERO)
        k = bs.index(named['paddle'])
        v0 = w.vals(w.call(wd, 'get_v'))
        f(w, 'run_breakout', wd, R.c(k), w.lst([S('a0'), S('a1')]), paddle_vel=S('vx'), run_time=R.c(2), mod=ENC)
        if c.eq(len(log) == 2, 'a step per unit of time', 'run:steps', 'encoder.run_breakout', '%d steps in two units of time' % len(log)):
            for j, (v, bv, dt) in enumerate(log):
                exp = list([S('nv%d' % j, i) for i in range(3 * len(bs))] if j else v0)
                exp[3 * k + 1] = mul(S('vx'), S('a%d' % j))
                c.eq(same_list(v, exp), 'action %d' % j, 'run:v', 'encoder.run_breakout', 'the velocities commanded are not those of the paddle', exp, v)
        w.done()
    for order in ORDERS:
        c.guard('helper', helper, order)

    # ------------------------------------------------------------ the world of a frame
    def world(n, form):
        w = sess(c)
        T = (lambda e: w.ten((len(e),), e)) if form == 'tensors' else (lambda e: w.lst([RR(x) for x in e]))
        # block levels are looked up by height: heights are numbers, everything else is unknown
        ys = [60, 66, 72]
        blocks = [([S('bx%d' % i), R.c(ys[i])], [S('bw%d' % i), R.c(6)]) for i in range(n)]
        P = Params(w, 0, form)
        ret = w.items(f(w, 'make_world', P.paddle, w.lst([w.lst([T(a), T(b)]) for a, b in blocks]), P.ball, T(syms('bv', 2)), mod=ENC))
        wd, ball, paddle, bl, idx = ret
        bodies = w.items(w.attr(wd, 'bodies'))
        text = '%d blocks as %s' % (n, form)
        wh = 'encoder.make_world'
        ix = [i for i, b in enumerate(bodies) if b == paddle or b is paddle]
        c.eq(isinstance(idx, R) and len(ix) == 1 and same(idx, R.c(ix[0])), 'index of the paddle, ' + text, 'world:idx', wh, 'the paddle is body %r, not %r' % (ix, idx))
        c.eq(same_list(w.vals(w.attr(paddle, 'p')), [ZERO] + P.x_paddle[:2]) and same_list(w.vals(w.attr(paddle, 'dims')), P.x_paddle[2:]), 'the paddle, ' + text, 'world:paddle', wh,
             'the paddle is not where its parameters say', P.x_paddle, w.vals(w.attr(paddle, 'p')) + w.vals(w.attr(paddle, 'dims')))
        c.eq(same_list(w.vals(w.attr(ball, 'p')), [ZERO] + P.x_ball[:2]) and same_list(w.vals(w.attr(ball, 'rad')), P.x_ball[2:]), 'the ball, ' + text, 'world:ball', wh,
             'the ball is not where its parameters say', P.x_ball, w.vals(w.attr(ball, 'p')) + w.vals(w.attr(ball, 'rad')))
        c.eq(same_list(w.vals(w.attr(ball, 'v')), [ZERO] + syms('bv', 2)), 'speed of the ball, ' + text, 'world:vel', wh, 'the ball does not have the velocity given', None, w.vals(w.attr(ball, 'v')))
        bl = w.items(bl)
        if c.eq(len(bl) == n, 'number of blocks, ' + text, 'world:blocks', wh, 'the world has %d blocks' % len(bl)):
            for b, (p, d) in zip(bl, blocks):
                c.eq(same_list(w.vals(w.attr(b, 'p')), [ZERO] + p) and same_list(w.vals(w.attr(b, 'dims')), d), 'a block, ' + text, 'world:block', wh,
                     'a block is not where its parameters say', p + d, w.vals(w.attr(b, 'p')) + w.vals(w.attr(b, 'dims')))
                c.eq(b in bodies, 'a block is in the world', 'world:in', wh, 'a block is not in the world')
        c.eq(ball in bodies and paddle in bodies, 'ball and paddle are in the world', 'world:in2', wh, 'ball or paddle are not in the world')
        js = [w.items(j)[0] for j in w.items(w.attr(wd, 'joints'))]
        fixed = [w.attr(j, 'body1') for j in js if j.cls.name == 'TotalConstraint']
        c.eq(all(b in fixed for b in bodies if b not in (ball, paddle)) and ball not in fixed and paddle not in fixed, 'walls and blocks are held, ball and paddle free, ' + text,
             'world:fixed', wh, 'a wall or block can move, or the ball or paddle cannot')
        vx = [w.vals(w.attr(b, 'v')) for b in bodies if b is not ball and b != ball]
        c.eq(all(same(x, ZERO) for v in vx for x in v), 'everything else at rest, ' + text, 'world:rest', wh, 'a body other than the ball starts moving')
        w.done()
    for n in (0, 1, 2, 3):
        for form in ('lists', 'tensors'):
            c.guard('world of %d blocks' % n, world, n, form)

    def cost(n, T, up):
        """The quadratic cost handed to the controller, as a form in the components of the state."""
        w = sess(c)
        seen = {}
        w.ip.ext_over['mpc.mpc.QuadCost'] = lambda ip, st, args, kw: seen.update(Q=args[0], p=args[1] if len(args) > 1 else kw.get('p'), st=st) or Opaque(('cost',))
        w.ip.ext_over['mpc.mpc.MPC'] = lambda ip, st, args, kw: seen.update(ns=args[0] if args else kw.get('n_state')) or \
            PyFn(lambda ip, st, args, kw: seen.update(x=args[0]) or TupV([Opaque(('x',)), lib.mk(ip, st, (T, 1, 1), [S('u', i) for i in range(T)], 'B'), Opaque(('o',))]), 'mpc')
        P = Params(w, n, 'lists')
        flat = list(P.flat)
        flat[1], flat[-2] = R.c(190), R.c(150)
        s1 = w.ten((len(flat),), flat)
        vel = TupV([R.c(3), R.c(10 if up else -10)])
        f(w, 'mpc', s1, w.lst([w.lst([S('a', i)]) for i in range(T)]), R.c(T), ball_vel=vel, lambda_a=S('la'), paddle_vel=TupV([S('vx'), S('vy')]))
        ns = len(flat)
        Q, q = w.vals(seen['Q'], seen['st']), w.vals(seen['p'], seen['st'])
        text = '%d blocks, ball %s' % (n, 'coming' if up else 'leaving')
        wh = 'run_breakout.mpc'
        if not c.eq(len(Q) == T * (ns + 1) ** 2, 'size of the cost, ' + text, 'cost:size', wh, 'the cost has %d entries' % len(Q)):
            return
        names = ['paddle x', 'paddle y', 'paddle w', 'paddle h'] + ['block'] * 4 * n + ['ball x', 'ball y', 'ball radius', 'action']
        for t in range(T):
            m = [[Q[t * (ns + 1) ** 2 + i * (ns + 1) + j] for j in range(ns + 1)] for i in range(ns + 1)]
            used = up and t <= 4 or not all(same(m[0][j], ZERO) and same(m[j][0], ZERO) for j in range(ns))
            for i in range(ns + 1):
                for j in range(i, ns + 1):
                    got = m[i][i] if i == j else add(m[i][j], m[j][i])
                    a, b = names[i], names[j]
                    exp = ZERO
                    if used and (a, b) in (('paddle x', 'paddle x'), ('ball x', 'ball x')):
                        exp = ONE
                    elif used and (a, b) == ('paddle x', 'ball x'):
                        exp = R.c(-2)
                    elif (a, b) == ('action', 'action'):
                        exp = S('la')
                    if not same(got, exp):
                        c.viol('cost:%s:%s' % (a, b), wh, 'the cost at time %d couples %s and %s (%s)' % (t, a, b, text), exp, got)
            c.ok('cost at time %d, %s' % (t, text))
        c.eq(all(same(x, ZERO) for x in q), 'no linear cost, ' + text, 'cost:linear', wh, 'the cost has a linear part')
        c.eq(same_list(w.vals(seen['x']), flat), 'state handed to the controller, ' + text, 'cost:x', wh, 'the controller does not start from the state given')
        w.done()
    for n in (1, 3):
        for up in (True, False):
            c.guard('cost', cost, n, 8, up)

    def corners():
        w = sess(c)
        r = w.items(f(w, 'get_pos_dims', w.lst([S('y0'), S('x0')]), w.lst([S('y1'), S('x1')]), mod=ENC))
        half = R.c(Fraction(1, 2))
        e = [mul(half, add(S('x0'), S('x1'))), mul(half, add(S('y0'), S('y1'))), sub(S('x1'), S('x0')), sub(S('y1'), S('y0'))]
        g = nums(w, r[0]) + nums(w, r[1])
        c.eq(same_list(g, e), 'position and size of a rectangle of pixels', 'corners', 'encoder.get_pos_dims', 'the position or size read from pixel corners is wrong', e, g)
        w.done()
    c.guard('corners', corners)
    return c.finish()


CHECKS = {'C29': c29}

"""C25 - C27: the linear algebra, the gradients and the iteration of the complementarity solver."""
import itertools
from fractions import Fraction
import os

import sa.terms as TT
from sa.phys import *
from sa.values import Exit
from sa.report import Check, clip
from sa.forks import explore
from sa.ident import identical, same, Real
from sa import lib as L

P = 'lcp_physics.lcp.solvers.pdipm'
DEEP = os.environ.get('VERIF_TIER') == 'thorough'


class Prob:
    """One symbolic problem: batch nb, nz unknowns, ni inequalities, ne equalities."""

    def __init__(self, w, tag, nb, nz, ni, ne, sym_q=False):
        self.w, self.tag, self.nb, self.nz, self.ni, self.ne = w, tag, nb, nz, ni, ne
        self.Q = self.T('Q', nb, nz, nz)
        if sym_q:
            self.Q = w.ten((nb, nz, nz), [S(tag, 'Q', b, min(i, j), max(i, j)) for b in range(nb) for i in range(nz) for j in range(nz)])
        self.p = self.T('p', nb, nz)
        self.G, self.h = self.T('G', nb, ni, nz), self.T('h', nb, ni)
        self.F = self.T('F', nb, ni, ni)
        self.A = self.T('A', nb, ne, nz) if ne else w.ten((0,), [])
        self.b = self.T('b', nb, ne) if ne else w.ten((0,), [])

    def T(self, n, *sh):
        return self.w.ten(sh, [S(self.tag, n, *ix) for ix in itertools.product(*map(range, sh))])

    def rhs(self, n):
        return (self.T(n + 'x', self.nb, self.nz), self.T(n + 's', self.nb, self.ni), self.T(n + 'z', self.nb, self.ni),
                self.T(n + 'y', self.nb, self.ne) if self.ne else None)

    def text(self):
        return '%d unknowns, %d inequalities, %d equalities, batch of %d' % (self.nz, self.ni, self.ne, self.nb)


def pivots(variant):
    """The row exchanges of the k-th factorisation: any admissible choice."""
    def f(call, b, n):
        if variant == 0:
            return list(range(n))
        x = variant * 7919 + call * 104729 + b * 1299709
        out = []
        for k in range(n):
            x = (x * 6364136223846793005 + 1442695040888963407) % 2 ** 64
            out.append(k + (x >> 40) % (n - k))
        if variant == 1:
            out = [min(k + 1, n - 1) for k in range(n)] if call % 2 else [n - 1 if k == 0 else k for k in range(n)]
        return out
    return f


def session(c, variant=0):
    L.LU_CALLS[0] = 0
    w = W(c)
    w.st.guard = True
    w.ip.lu_choice = pivots(variant)
    w.ip.hide_values = True
    TT.CUT[0] = True
    return w


def grid(w, t):
    """Elements by index tuple; a scalar number broadcasts."""
    sh = w.shape(t)
    return dict(zip(itertools.product(*map(range, sh)), w.vals(t)))


def dot(pairs):
    s = ZERO
    for a, b in pairs:
        s = add(s, mul(L.hide(a), L.hide(b)))
    return L.hide(s)


def residuals(w, pr, Q, D, C, Cy, rx, rs, rz, ry, dx, ds, dz, dy):
    """{(block, batch, row): value} of the block system applied to a step, plus the right-hand side.
    D is the diagonal block (matrix), C the block at (slack row, multiplier), Cy that at (equality row, multiplier)."""
    G, A = grid(w, pr.G), grid(w, pr.A)
    nz, ni, ne = range(pr.nz), range(pr.ni), range(pr.ne)
    out = {}
    for b in range(pr.nb):
        for i in nz:
            v = dot([(Q[b, i, j], dx[b, j]) for j in nz] + [(G[b, k, i], dz[b, k]) for k in ni] + [(A[b, k, i], dy[b, k]) for k in ne])
            out['stationarity', b, i] = add(v, rx[b, i])
        for i in ni:
            out['complementarity', b, i] = add(add(dot([(D(b, i, j), ds[b, j]) for j in ni]), dz[b, i]), rs[b, i])
            v = dot([(G[b, i, j], dx[b, j]) for j in nz] + [(C(b, i, j), dz[b, j]) for j in ni])
            out['inequality', b, i] = add(add(v, ds[b, i]), rz[b, i])
        for i in ne:
            v = dot([(A[b, i, j], dx[b, j]) for j in nz] + [(Cy(b, i, j), dy[b, j]) for j in ne])
            out['equality', b, i] = add(v, ry[b, i])
    return out


def step_of(c, w, pr, o, key, where):
    """The four parts of a step as grids, with their shapes checked."""
    parts = w.items(o)
    want = [(pr.nb, pr.nz), (pr.nb, pr.ni), (pr.nb, pr.ni), (pr.nb, pr.ne)]
    out = []
    for k, (x, sh) in enumerate(zip(parts, want)):
        if k == 3 and not pr.ne:
            out.append({})
            continue
        if not isinstance(x, Ten) or w.shape(x) != sh:
            c.viol(key + ':shape%d' % k, where, 'part %d of the step has the wrong form (%s)' % (k, pr.text()), sh, w.shape(x) if isinstance(x, Ten) else x)
            return None
        out.append(grid(w, x))
    if len(parts) != 4:
        c.viol(key + ':parts', where, 'the step has %d parts' % len(parts), 4, len(parts))
        return None
    return out


def zero(c, res, text, key, where, msg):
    bad = [(k, v) for k, v in res.items() if not identical(v, ZERO)]
    names = sorted({k[0] for k, v in bad})
    c.eq(not bad, text, key + ':' + ','.join(names), where, msg % ' and '.join(names or ['?']),
         'zero residual', clip(bad[0]) if bad else None)
    return not bad


def frozen(w, ts):
    return [tuple(w.vals(t)) if isinstance(t, Ten) else None for t in ts]


SIZES = [(1, 2, 1, 0), (1, 1, 2, 0), (2, 2, 2, 0), (1, 2, 3, 0), (1, 2, 1, 1), (2, 3, 2, 2), (1, 3, 3, 2), (2, 2, 3, 1), (1, 3, 1, 3)]
if DEEP:
    SIZES += [(1, 4, 4, 2), (2, 4, 3, 3), (3, 3, 2, 1), (1, 5, 2, 4), (1, 2, 5, 1)]


def c25():
    c = Check('C25', 'KKT solver', 'the factorisation and solution routines evaluated on symbolic problems of small explicit sizes, with '
              'enumerated row exchanges; the block equations decided as identities over all data')
    c.assumptions = ['the quadratic term is symmetric', 'a factorisation returns factors of its argument for some row exchange', 'exact arithmetic', 'no CUDA tensors']

    def run(size, variant):
        def go():
            w = session(c, variant)
            pr = Prob(w, 'a', *size, sym_q=True)
            where = 'pdipm.solve_kkt'
            key = 'kkt:%d%d' % (min(pr.ne, 1), min(pr.nb - 1, 1))
            keep = frozen(w, (pr.Q, pr.G, pr.F, pr.A))
            r = w.fn(P, 'pre_factor_kkt', pr.Q, pr.G, pr.F, pr.A)
            QLU, SLU, R_ = w.items(r)
            Q, F = grid(w, pr.Q), grid(w, pr.F)

            def solve(n):
                d = pr.T('d' + n, pr.nb, pr.ni)
                rhs = pr.rhs('r' + n)
                w.fn(P, 'factor_kkt', SLU, R_, d)
                before = frozen(w, rhs + (d,))
                o = w.fn(P, 'solve_kkt', QLU, d, pr.G, pr.A, SLU, *rhs)
                s = step_of(c, w, pr, o, key, where)
                if s is None:
                    return
                dx, ds, dz, dy = s
                g = grid(w, d)
                res = residuals(w, pr, Q, lambda b, i, j: g[b, i] if i == j else ZERO, lambda b, i, j: neg(F[b, i, j]),
                                lambda b, i, j: ZERO, *[grid(w, x) if x is not None else {} for x in rhs], dx, ds, dz, dy)
                zero(c, res, 'block equations, %s, rows exchanged by choice %d, diagonal %s' % (pr.text(), variant, n),
                     key, where, 'the step does not solve the %s equations (' + pr.text() + ', diagonal no. ' + n + ')')
                c.eq(frozen(w, rhs + (d,)) == before, 'arguments kept', key + ':args', where, 'the solution overwrites its right-hand side')
            solve('1')
            solve('2')
            # another problem is treated in between
            for other in ((pr.nb, 2, pr.ni + 1, 1), (pr.nb + 1, 1, pr.ni, 0), (pr.nb, pr.nz, pr.ni, pr.ne)):
                q2 = Prob(w, 'o%d%d' % other[:2], *other)
                r2 = w.fn(P, 'pre_factor_kkt', q2.Q, q2.G, q2.F, q2.A)
                w.fn(P, 'factor_kkt', w.items(r2)[1], w.items(r2)[2], q2.T('d', q2.nb, q2.ni))
                if variant == 1 or other[0] != pr.nb:
                    solve('after %d %d %d %d' % other)
            c.eq(frozen(w, (pr.Q, pr.G, pr.F, pr.A)) == keep, 'problem data kept', 'kkt:data', 'pdipm.pre_factor_kkt',
                 'the factorisation overwrites the problem data')
            w.done()
        c.guard('KKT system of size %r, choice %d' % (size, variant), go)
    for size in SIZES:
        for variant in ((0, 1, 2) if not DEEP else (0, 1, 2, 3, 4, 5)):
            run(size, variant)

    def regular(size, variant):
        def go():
            w = session(c, variant)
            pr = Prob(w, 'a', *size, sym_q=True)
            nb, nz, ni, ne = size
            D = pr.T('D', nb, ni, ni)
            eps = S('eps')
            f = grid(w, pr.F)
            C = w.ten((nb, ni + ne, ni + ne), [sub(neg(eps) if i == j else ZERO, f[b, i, j] if i < ni and j < ni else ZERO)
                                               for b in range(nb) for i in range(ni + ne) for j in range(ni + ne)])
            rhs = pr.rhs('r')
            where = 'pdipm.factor_solve_kkt_reg'
            key = 'kktreg:%d' % min(ne, 1)
            o = w.fn(P, 'factor_solve_kkt_reg', pr.Q, D, pr.G, pr.A, C, *rhs, eps)
            s = step_of(c, w, pr, o, key, where)
            if s is None:
                return
            g = grid(w, D)
            Q = grid(w, pr.Q)
            res = residuals(w, pr, Q, lambda b, i, j: g[b, i, j],
                            lambda b, i, j: sub(neg(eps) if i == j else ZERO, f[b, i, j]), lambda b, i, j: neg(eps) if i == j else ZERO,
                            *[grid(w, x) if x is not None else {} for x in rhs], *s)
            zero(c, res, 'regularised block equations, %s, choice %d' % (pr.text(), variant), key, where,
                 'the step does not solve the regularised %s equations (' + pr.text() + ')')
            # the residual function measures these equations, on any step
            st = pr.rhs('t')
            Ft = L.t_view(w.ip, C, TupV([SliceV(None, None, None), SliceV(None, R.c(ni), None), SliceV(None, R.c(ni), None)]), w.st)
            o = w.items(w.fn(P, 'kkt_resid_reg', pr.Q, D, pr.G, pr.A, Ft, eps, *st, *rhs))
            res = residuals(w, pr, Q, lambda b, i, j: g[b, i, j],
                            lambda b, i, j: sub(neg(eps) if i == j else ZERO, f[b, i, j]), lambda b, i, j: neg(eps) if i == j else ZERO,
                            *[grid(w, x) if x is not None else {} for x in rhs], *[grid(w, x) if x is not None else {} for x in st])
            got = {}
            for n, x in zip(('stationarity', 'complementarity', 'inequality', 'equality'), o):
                if x is not None:
                    for (b, i), v in grid(w, x).items():
                        got[n, b, i] = v
            if not c.eq(set(got) == set(res), 'residual parts', 'kktres:parts', 'pdipm.kkt_resid_reg', 'the residual lacks parts'):
                return
            zero(c, {k: sub(res[k], got[k]) for k in res}, 'residual of the regularised equations, ' + pr.text(), 'kktres:%d' % min(ne, 1),
                 'pdipm.kkt_resid_reg', 'the residual of the %s equations is not that of the block system')
            w.done()
        c.guard('regularised KKT system of size %r, choice %d' % (size, variant), go)

    def refined(size, variant):
        def go():
            w = session(c, variant)
            pr = Prob(w, 'a', *size, sym_q=True)
            nb, nz, ni, ne = size
            D = pr.T('D', nb, ni, ni)
            rhs = pr.rhs('r')
            where = 'pdipm.solve_kkt_ir'
            f, g, Q = grid(w, pr.F), grid(w, D), grid(w, pr.Q)
            seen = []
            reg = w.get(P, 'factor_solve_kkt_reg')
            o0 = w.fn(P, 'solve_kkt_ir', pr.Q, D, pr.G, pr.A, pr.F, *rhs, R.c(0))
            o1 = w.fn(P, 'solve_kkt_ir', pr.Q, D, pr.G, pr.A, pr.F, *rhs, R.c(1))
            s0, s1 = step_of(c, w, pr, o0, 'kktir', where), step_of(c, w, pr, o1, 'kktir', where)
            if s0 is None or s1 is None:
                return
            eps = R.c(Fraction(1, 10 ** 7))
            F1 = lambda b, i, j: sub(neg(eps) if i == j else ZERO, f[b, i, j])
            E1 = lambda b, i, j: neg(eps) if i == j else ZERO
            Qt = {k: add(v, eps) if k[1] == k[2] else v for k, v in Q.items()}
            Dt = lambda b, i, j: add(g[b, i, j], eps) if i == j else g[b, i, j]
            R0 = [grid(w, x) if x is not None else {} for x in rhs]
            zr = [{k: ZERO for k in x} for x in R0]
            zero(c, residuals(w, pr, Qt, Dt, F1, E1, *R0, *s0), 'first step of the refinement, ' + pr.text(), 'kktir0', where,
                 'the step before refinement does not solve the regularised %s equations')
            r0 = residuals(w, pr, Q, lambda b, i, j: g[b, i, j], F1, E1, *R0, *s0)
            dd = [{k: sub(y[k], x[k]) for k in x} for x, y in zip(s0, s1)]
            r1 = residuals(w, pr, Qt, Dt, F1, E1, *zr, *dd)
            zero(c, {k: add(r1[k], r0[k]) for k in r0}, 'refinement step, ' + pr.text(), 'kktir1', where,
                 'the refinement does not correct the residual of the %s equations')
            w.done()
        c.guard('refined KKT system of size %r, choice %d' % (size, variant), go)
    w = session(c)
    m = w.modv(P)
    for size in ([(1, 2, 1, 0), (2, 2, 2, 0), (1, 2, 2, 1), (2, 3, 2, 2)]):
        for variant in (0, 2):
            if (m.frame, 'factor_solve_kkt_reg') in w.st.heap and (m.frame, 'kkt_resid_reg') in w.st.heap:
                regular(size, variant)
            if (m.frame, 'solve_kkt_ir') in w.st.heap and size[0] == 1:
                refined(size, variant)
    return c.finish()


# ------------------------------------------------------------ C26
def function_object(w):
    """An LCPFunction with the storage of the autograd base class."""
    o = w.new(w.get('lcp_physics.lcp.lcp', 'LCPFunction'))

    def save(ip, st, args, kw):
        w.setattr(o, 'saved_tensors', TupV(args), st)
        return None
    w.setattr(o, 'save_for_backward', PyFn(save))
    return o


def c26():
    c = Check('C26', 'gradients of the solver', 'the backward pass evaluated on symbolic problems and symbolic solutions; the adjoint equations and '
              'the seven gradient formulas of implicit differentiation decided as identities')
    c.assumptions = ['the solution handed to the backward pass satisfies the optimality conditions (C27 covers what is returned)',
                     'the quadratic term is symmetric', 'a factorisation returns factors of its argument for some row exchange']

    def run(size, variant):
        def go():
            w = session(c, variant)
            nb, nz, ni, ne = size
            key = 'grad:%d' % min(ne, 1)
            where = 'LCPFunction.backward'
            sols = []

            def stub(ip, st, f, args, kw):
                """The iteration, reduced to what it leaves behind: some solution and a factorisation of the last diagonal."""
                names = [a.arg for a in f.node.args.args]
                env = dict(zip(names, args))
                pr = sols[-1][0]
                x, s, z = pr.T('x', nb, nz), pr.T('s', nb, ni), pr.T('l', nb, ni)
                y = pr.T('n', nb, ne) if ne else None
                if 'S_LU' in env and 'R' in env:
                    w.fn(P, 'factor_kkt', env['S_LU'], env['R'], pr.T('dl', nb, ni), st=st)
                sols[-1].append((x, y, z, s))
                return TupV([x, y, z, s])
            w.ip.overrides['forward'] = stub

            def make(tag):
                pr = Prob(w, tag, *size, sym_q=True)
                o = function_object(w)
                sols.append([pr])
                ret = w.call(o, 'forward', pr.Q, pr.p, pr.G, pr.h, pr.A, pr.b, pr.F)
                if len(sols[-1]) != 2:
                    raise Imprecise('the forward pass does not call the iteration exactly once')
                x = sols[-1][1][0]
                c.eq(isinstance(ret, Ten) and w.shape(ret) == (nb, nz) and w.vals(ret) == w.vals(x), 'the forward pass returns the primal part',
                     'forward:result', 'LCPFunction.forward', 'the forward pass does not return the primal part of the solution')
                return pr, o, sols[-1][1]

            def check(pr, o, sol, n):
                gvec = pr.T('g' + n, nb, nz)
                grads = w.items(w.call(o, 'backward', gvec))
                if not c.eq(len(grads) == 7, 'seven gradients', key + ':count', where, '%d gradients for seven inputs' % len(grads)):
                    return
                shapes = [(nb, nz, nz), (nb, nz), (nb, ni, nz), (nb, ni), (nb, ne, nz), (nb, ne), (nb, ni, ni)]
                names = 'QpGhAbF'
                for k, (v, sh) in enumerate(zip(grads, shapes)):
                    if k in (4, 5) and not ne:
                        c.eq(v is None or isinstance(v, Ten) and w.shape(v) in ((0,), sh), 'no gradient for absent equalities', key + ':none',
                             where, 'a gradient for %s although there are no equality constraints' % names[k], None, v)
                        continue
                    if not c.eq(isinstance(v, Ten) and w.shape(v) == sh, 'gradient %s has the shape of the input' % names[k], key + ':shape' + names[k],
                                where, 'the gradient of %s does not have the shape of the input (%s)' % (names[k], pr.text()), sh,
                                w.shape(v) if isinstance(v, Ten) else v):
                        return
                gq, gp, gg, gh, ga, gb, gf = [grid(w, v) if isinstance(v, Ten) else {} for v in grads]
                x, y, z, s = [grid(w, v) if v is not None else {} for v in sol]
                u, ul = gp, {k: neg(v) for k, v in gh.items()}
                un = {k: neg(v) for k, v in gb.items()}
                Q, F, g = grid(w, pr.Q), grid(w, pr.F), grid(w, gvec)
                # the adjoint equations: ds eliminated, the coupling matrix transposed
                G, A = grid(w, pr.G), grid(w, pr.A)
                res = {}
                for b in range(nb):
                    for i in range(nz):
                        res['stationarity', b, i] = add(dot([(Q[b, j, i], u[b, j]) for j in range(nz)] + [(G[b, k, i], ul[b, k]) for k in range(ni)]
                                                            + [(A[b, k, i], un[b, k]) for k in range(ne)]), g[b, i])
                    for i in range(ni):
                        v = dot([(G[b, i, j], u[b, j]) for j in range(nz)] + [(neg(F[b, j, i]), ul[b, j]) for j in range(ni)])
                        res['inequality', b, i] = sub(v, mul(div(s[b, i], z[b, i]), ul[b, i]))
                    for i in range(ne):
                        res['equality', b, i] = dot([(A[b, i, j], u[b, j]) for j in range(nz)])
                zero(c, res, 'adjoint equations, %s, choice %d, call %s' % (pr.text(), variant, n), key + ':adjoint', where,
                     'the gradients do not solve the adjoint %s equations (' + pr.text() + ')')
                want = {}
                N, I, E = range(nz), range(ni), range(ne)
                for b in range(nb):
                    for i in N:
                        for j in N:
                            want['Q', b, i, j] = (add(gq[b, i, j], gq[b, j, i]), add(mul(u[b, i], x[b, j]), mul(x[b, i], u[b, j])))
                    for i in I:
                        for j in N:
                            want['G', b, i, j] = (gg[b, i, j], add(mul(z[b, i], u[b, j]), mul(ul[b, i], x[b, j])))
                        for j in I:
                            want['F', b, i, j] = (gf[b, i, j], neg(mul(ul[b, i], z[b, j])))
                    for i in E:
                        for j in N:
                            want['A', b, i, j] = (ga[b, i, j], add(mul(y[b, i], u[b, j]), mul(un[b, i], x[b, j])))
                for m in ('Q', 'G', 'F') + (('A',) if ne else ()):
                    bad = [(k, p) for k, p in want.items() if k[0] == m and not identical(*p)]
                    c.eq(not bad, 'gradient of %s, %s, choice %d, call %s' % (m, pr.text(), variant, n), key + ':' + m, where,
                         'the gradient of %s is not that of the optimality conditions (%s)' % (m, pr.text()),
                         clip(bad[0][1][1]) if bad else None, clip(bad[0][1][0]) if bad else None)
            a = make('a')
            check(*a, '1')
            b_ = make('b')
            check(*a, '2')
            check(*b_, '3')
            w.done()
        c.guard('gradients of size %r, choice %d' % (size, variant), go)
    for size in [(1, 2, 1, 0), (2, 2, 2, 0), (1, 2, 3, 0), (1, 2, 2, 1), (2, 3, 2, 2)] + ([(1, 4, 3, 2), (3, 2, 2, 1), (1, 3, 4, 0)] if DEEP else []):
        for variant in (0, 2, 3) if DEEP else (0, 2):
            run(size, variant)
    return c.finish()


# ------------------------------------------------------------ C27
class Trace:
    """What one run of the iteration did: its calls of the solver, of the factorisation and of the step length."""

    def __init__(self):
        self.solves, self.factors, self.steps = [], [], []
        self.failed = 0
        self.types = []


def iteration(c, size, max_iter, lim, fail_at=None, signs=False):
    """Explore every path of pdipm.forward; the linear solver is replaced by unknown steps."""
    nb, nz, ni, ne = size
    w = session(c, 0)
    w.ip.hide_values = True
    w.ip.decide_values = True
    pr = Prob(w, 'a', *size, sym_q=True)
    tr = Trace()

    def shape_of(n):
        return {'x': nz, 's': ni, 'z': ni, 'y': ne}[n]

    def fresh(n, k, st, positive=False):
        e = []
        for b in range(nb):
            t = ZERO
            for i in range(shape_of(n)):
                a = S('st%d' % k, n, b, i)
                if positive:                # positive and ascending, which loses nothing but the names
                    TT.POSA.add(next(iter(a.atoms())))
                    a = t = add(t, a)
                e.append(a)
        return L.mk(w.ip, st, (nb, shape_of(n)), e, 'B')

    def factor(ip, st, f, args, kw):
        env = bind(f, args, kw)
        tr.types.append(('diagonal', L.lift_dt(env['d'])))
        tr.factors.append([undet(x) for x in L.elems(ip, env['d'], st)])
        if fail_at is not None and len(tr.factors) == fail_at + 2:
            tr.failed = 1
            if not ip.tries:
                raise Imprecise('the factorisation is not protected')
            ip.tries[-1].append(Exit('RuntimeError', st.guard, None, st.clone(), 0))
            raise AbsRaise()
        return None

    def solve(ip, st, f, args, kw):
        env = bind(f, args, kw)
        k = len(tr.solves)
        tr.types += [('right-hand side ' + n, L.lift_dt(env[n])) for n in ('d', 'rx', 'rs', 'rz', 'ry') if isinstance(env[n], Ten)]
        step = [fresh(n, k, st, k == 0 and n in 'sz' and not signs) for n in 'xszy']
        if not ne:
            step[3] = None
        call = {n: (list(map(undet, L.elems(ip, env[n], st))) if isinstance(env[n], Ten) else env[n]) for n in ('d', 'rx', 'rs', 'rz', 'ry')}
        call['step'] = {n: ([undet(x) for x in L.read(v, st)] if v is not None else None) for n, v in zip('xszy', step)}
        tr.solves.append(call)
        return TupV(step)

    def length(ip, st, f, args, kw):
        env = [[undet(x) for x in L.elems(ip, a, st)] for a in args]
        k = len(tr.steps)
        last = tr.solves[-1]['step']
        if any(last[n] == env[1] for n in 'sz'):
            # the length of the affine step only enters the centering
            return L.mk(ip, st, (nb,) if nb > 1 else (), [R.c(Fraction(1, 2))] * nb, 'B')
        e = [S('len%d' % k, b) for b in range(nb)]
        for a in e:
            TT.POSA.add(next(iter(a.atoms())))
        tr.steps.append((env, e))
        return L.mk(ip, st, (nb,) if nb > 1 else (), e, 'B')

    def bind(f, args, kw):
        env = dict(zip([a.arg for a in f.node.args.args], args))
        env.update(kw)
        return env
    ov = w.ip.overrides
    ov['factor_kkt'], ov['solve_kkt'] = factor, solve
    if (w.modv(P).frame, 'get_step') in w.st.heap:
        ov['get_step'] = length
    return w, pr, tr


def c27():
    c = Check('C27', 'best iterate', 'every path of the iteration evaluated on symbolic problems with unknown steps in place of the linear solver; '
              'the optimality residuals fed to the solver and compared for the choice of the best iterate decided as identities; '
              'the step length decided for every order of the candidate lengths')
    c.assumptions = ['the linear solver returns some step (C25 decides which)', 'no step component is exactly zero',
                     'a factorisation failure does not happen before the first iterate is recorded']
    W_ = 'pdipm.forward'

    def runs(size, max_iter, lim, fail_at=None):
        nb, nz, ni, ne = size
        label = '%r, %d iterations%s%s' % (size, max_iter, ', limit %d' % lim, ', factorisation %d fails' % fail_at if fail_at is not None else '')

        def run(o):
            w, pr, tr = iteration(c, size, max_iter, lim, fail_at)
            w.ip.oracle = o
            st = w.st
            try:
                ret = forward(w, pr)
            except AbsRaise:
                return [('raises', [(x.kind, x.what, str(getattr(x, 'func', '')), str(x.loc)) for x in w.ip.raised])]
            w.ip.oracle = None
            return judge(w, pr, tr, o, ret, st) + [('called', sorted(w.ip.called))]

        def forward(w, pr):
            return w.fn(P, 'forward', pr.Q, pr.p, pr.G, pr.h, pr.A, pr.b, pr.F, Opaque(('QLU',)), Opaque(('SLU',)), Opaque(('R',)),
                       eps=S('tol'), max_iter=R.c(max_iter), not_improved_lim=R.c(lim), verbose=R.c(-1))

        def judge(w, pr, tr, o, ret, st):
            out = []
            def ok(t):
                out.append(('ok', '%s (%s)' % (t, label)))
            def viol(key, msg, exp=None, found=None):
                out.append(('viol', key, W_, '%s (%s)' % (msg, label), clip(exp), clip(found)))
            N, I, E, B = range(nz), range(ni), range(ne), range(nb)
            if not tr.solves:
                viol('start', 'no starting point is computed')
                return out
            ix = lambda l, b, i: l[b * (len(l) // nb) + i]
            # the starting point
            s0 = tr.solves[0]
            p, h, bb = grid(w, pr.p), grid(w, pr.h), grid(w, pr.b) if ne else {}
            good = all(same(ix(s0['d'], b, i), ONE) for b in B for i in I) and all(same(ix(s0['rx'], b, i), p[b, i]) for b in B for i in N) \
                and all(same(ix(s0['rs'], b, i), ZERO) for b in B for i in I) and all(same(ix(s0['rz'], b, i), neg(h[b, i])) for b in B for i in I) \
                and (not ne or all(same(ix(s0['ry'], b, i), neg(bb[b, i])) for b in B for i in E))
            ok('starting point solves the problem with unit weights') if good else viol('start:rhs', 'the starting point is not that of the problem data')
            # the iterates: from the recorded calls
            x, s, z, y = (list(s0['step'][n]) if s0['step'][n] is not None else None for n in 'xszy')
            its = [(x, y, z, s)]
            rest = tr.solves[1:]
            Q, G, A, F = (grid(w, t) for t in (pr.Q, pr.G, pr.A, pr.F))
            resid = []

            def resids(x, y, z, s):
                rx = {(b, i): add(p[b, i], dot([(Q[b, i, j], ix(x, b, j)) for j in N] + [(G[b, k, i], ix(z, b, k)) for k in I]
                                               + [(A[b, k, i], ix(y, b, k)) for k in E])) for b in B for i in N}
                rz = {(b, i): add(sub(ix(s, b, i), h[b, i]), dot([(G[b, i, j], ix(x, b, j)) for j in N] + [(neg(F[b, i, j]), ix(z, b, j)) for j in I]))
                      for b in B for i in I}
                ry = {(b, i): sub(dot([(A[b, i, j], ix(x, b, j)) for j in N]), bb[b, i]) for b in B for i in E}
                return rx, rz, ry

            def total(x, y, z, s, r, b):
                n = ZERO
                for v, m in zip(r, (nz, ni, ne)):
                    if m:
                        q = dot([(v[b, i], v[b, i]) for i in range(m)])
                        n = add(n, lift(sqrt, q))
                gap = dot([(ix(s, b, i), ix(z, b, i)) for i in I])
                return add(n, mk_abs(gap)), add(n, gap)
            resid.append(resids(x, y, z, s))
            k = 0
            while k < len(rest):
                aff = rest[k]
                rx, rz, ry = resid[-1]
                checks = [('stationarity', all(same(ix(aff['rx'], b, i), rx[b, i]) for b in B for i in N)),
                          ('inequality', all(same(ix(aff['rz'], b, i), rz[b, i]) for b in B for i in I)),
                          ('equality', not ne or all(same(ix(aff['ry'], b, i), ry[b, i]) for b in B for i in E)),
                          ('multiplier', all(same(ix(aff['rs'], b, i), ix(z, b, i)) for b in B for i in I)),
                          ('diagonal', all(same(ix(aff['d'], b, i), div(ix(z, b, i), ix(s, b, i))) for b in B for i in I))]
                bad = [n for n, t in checks if not t]
                if bad:
                    viol('iterate:' + ','.join(bad), 'iterate %d: the %s residual handed to the solver is not that of the optimality conditions' % (
                        len(its) - 1, ' and '.join(bad)), 'Q x + p + G\'z + A\'y; G x + s - h - F z; A x - b; z; z / s')
                    return out
                ok('residuals at iterate %d' % (len(its) - 1))
                if k + 1 >= len(rest):
                    viol('corrector', 'no centering step at iterate %d' % (len(its) - 1))
                    return out
                cor = rest[k + 1]
                step = {n: [add(a, b_) for a, b_ in zip(aff['step'][n], cor['step'][n])] if aff['step'][n] is not None else None for n in 'xszy'}
                k += 2
                # the lengths that limit this step
                lim_z = [e for env, e in tr.steps if all(same(a, b_) for a, b_ in zip(env[0], z)) and all(same(a, b_) for a, b_ in zip(env[1], step['z']))]
                lim_s = [e for env, e in tr.steps if all(same(a, b_) for a, b_ in zip(env[0], s)) and all(same(a, b_) for a, b_ in zip(env[1], step['s']))]
                if not lim_z or not lim_s:
                    viol('limit:' + ('z' if not lim_z else 's'), 'the step from iterate %d is not limited by the %s' % (
                        len(its) - 1, 'multipliers' if not lim_z else 'slacks'))
                    return out
                # the next iterate: the length is whatever the next call (or the result) shows
                n = len(its) + 1                # the weights factorised at the next iterate show the length
                if n >= len(tr.factors):
                    break
                al = []
                for b in B:
                    dn, z0, s0_, dz, ds = (o.decide(ix(tr.factors[n], b, 0)), ix(z, b, 0), ix(s, b, 0), ix(step['z'], b, 0), ix(step['s'], b, 0))
                    al.append(simple(div(sub(mul(dn, s0_), z0), sub(dz, mul(dn, ds)))))
                for b in B:
                    pr_ = admissible(o, al[b], lim_z[-1][b], lim_s[-1][b])
                    if pr_ is not None:
                        viol('length', 'the step from iterate %d can leave the positive range' % (len(its) - 1), 'a length below both limits', pr_)
                        return out
                ok('step length from iterate %d' % (len(its) - 1))
                move = lambda v, n: [simple(add(a, mul(al[j // (len(v) // nb)], d))) for j, (a, d) in enumerate(zip(v, step[n]))] if v is not None else None
                x, s, z, y = move(x, 'x'), move(s, 's'), move(z, 'z'), move(y, 'y')
                its.append((x, y, z, s))
                resid.append(resids(x, y, z, s))
            # the result
            parts = w.items(ret, st)
            if len(parts) != 4:
                viol('result', 'the result has %d parts' % len(parts), 4)
                return out
            seen = its
            got = []
            for n, v, m in zip('xyzs', parts, (nz, ne, ni, ni)):
                if m == 0:
                    continue
                if not isinstance(v, Ten) or w.shape(v, st) != (nb, m):
                    viol('result:' + n, 'part %s of the result has the wrong form' % n, (nb, m), w.shape(v, st) if isinstance(v, Ten) else v)
                    return out
            vals = [[undet(o.decide(q)) for q in L.elems(w.ip, v, st)] if m else None for v, m in zip(parts, (nz, ne, ni, ni))]
            for b in B:
                which = []
                for k, it in enumerate(seen):
                    if all(v is None or all(same(ix(v, b, i), ix(t, b, i)) for i in range(len(v) // nb)) for v, t in zip(vals, it)):
                        which.append(k)
                if not which:
                    per = []
                    for v, t_ in zip(vals, 'xyzs'):
                        if v is not None:
                            per.append((t_, [k for k, it in enumerate(seen) if all(same(ix(v, b, i), ix(it['xyzs'.index(t_)], b, i)) for i in range(len(v) // nb))]))
                    viol('mixed', 'the parts returned for problem %d do not belong to one iterate in the order x, y, z, s' % b,
                         'the same iterate for all parts', 'part: matching iterates %r' % (per,))
                    return out
                got.append(which[0])
            ok('the four parts belong to one iterate')
            tot = [[total(*it, resid[k], b) for b in B] for k, it in enumerate(seen)]
            nseen = len(seen)
            for b in B:
                le = order(o, [t[b] for t in tot])
                m = got[b]
                for k in range(nseen - tr.failed):      # an iterate whose factorisation failed need not be considered
                    if k != m and not le(m, k):
                        viol('best', 'problem %d gets iterate %d although iterate %d can have the smaller residual' % (b, m, k),
                             'the iterate of the smallest total residual', '; '.join('%r=%r' % (g, v) for g, v in list(o.facts.truth.items())[:4]))
                        return out
            ok('the iterate returned has the smallest residual of %d' % nseen)
            return out

        def go():
            old = set(TT.POSA)
            try:
                def timed(o):
                    r = run(o)
                    return r
                collect_(c, label, explore(timed, assume=one_order if nb > 1 else None, timeout=600))
            finally:
                TT.POSA.clear()
                TT.POSA.update(old)
        c.guard('iteration %s' % label, go)
    for size in [(1, 2, 2, 0), (1, 2, 1, 1)]:
        runs(size, 1, 3)
        runs(size, 2, 3)
        runs(size, 2, 3, 1)
    runs((1, 1, 1, 0), 3, 3)
    runs((1, 1, 1, 0), 3, 1)
    runs((2, 1, 1, 0), 2, 3)
    runs((2, 1, 1, 0), 2, 1)
    runs((2, 2, 2, 1), 2, 3)
    runs((2, 1, 1, 1), 2, 3, 1)

    def start(size):
        """Slacks and multipliers of the starting point are positive, whatever the first solution is."""
        nb, nz, ni, ne = size
        label = 'start of %r' % (size,)

        def run(o):
            w, pr, tr = iteration(c, size, 1, 3, signs=True)
            w.ip.oracle = o
            st = w.st
            try:
                parts = w.items(w.fn(P, 'forward', pr.Q, pr.p, pr.G, pr.h, pr.A, pr.b, pr.F, Opaque(('QLU',)), Opaque(('SLU',)), Opaque(('R',)),
                                     eps=S('tol'), max_iter=R.c(1), not_improved_lim=R.c(3), verbose=R.c(-1)), st)
            except AbsRaise:
                return [('raises', [(x.kind, x.what, str(getattr(x, 'func', '')), str(x.loc)) for x in w.ip.raised])]
            w.ip.oracle = None
            out = []
            cons = known_forms(o)
            for n, v in (('multipliers', parts[2]), ('slacks', parts[3])):
                for k, x in enumerate(L.elems(w.ip, v, st)):
                    f = form_of(o.decide(undet(x)))
                    if f is None:
                        raise Imprecise('a starting value is no linear function of the first solution')
                    # possible that it is not positive?
                    if feasible(cons + [(f[0], f[1], False)]):
                        out.append(('viol', 'start:' + n, W_, 'the starting %s can be zero or negative (%s)' % (n, label), 'positive', clip(x)))
                        return out
            out.append(('ok', 'positive start (%s)' % label))
            return out + [('called', sorted(w.ip.called))]

        def go():
            collect_(c, label, explore(run, assume=start_only, timeout=300))
        c.guard(label, go)
    for size in ((1, 1, 1, 0), (1, 1, 2, 0), (2, 1, 1, 0), (1, 2, 3, 1), (2, 2, 2, 0)):
        start(size)

    def length(nb, n):
        """get_step keeps every component of v + step * dv nonnegative."""
        label = 'step length of %d x %d' % (nb, n)

        def run(o):
            w = session(c)
            w.ip.decide_values = True
            v = [S('v', b, i) for b in range(nb) for i in range(n)]
            dv = [S('dv', b, i) for b in range(nb) for i in range(n)]
            for a in v:
                TT.POSA.add(next(iter(a.atoms())))
            w.ip.oracle = o
            r = w.fn(P, 'get_step', w.ten((nb, n), v), w.ten((nb, n), dv))
            w.ip.oracle = None
            sh = w.shape(r)
            if sh not in ((nb,), ()) or len(w.vals(r)) != nb:
                return [('viol', 'step:shape', 'pdipm.get_step', 'the step length has the wrong form (%s)' % label, (nb,), sh)]
            out = []
            cons = known_forms(o)
            a = []
            for k in range(nb * n):
                q = form_of(L.hide(neg(div(v[k], dv[k]))))
                d = form_of(dv[k])
                a.append((q, d))
            for b in range(nb):
                e = o.decide(undet(w.vals(r)[b]))
                f = form_of(e)
                if f is None:
                    raise Imprecise('the step length %r is not one of the ratios' % (e,))
                mine = range(b * n, b * n + n)
                for neg_ in itertools.product((True, False), repeat=nb * n):
                    base = list(cons)
                    for k, sgn in enumerate(neg_):
                        (q, q0), (d, d0) = a[k]
                        base.append((d if sgn else {i: -x for i, x in d.items()}, Fraction(0), True))
                        base.append(({i: -x for i, x in q.items()} if sgn else q, Fraction(0), True))
                    if feasible(base + [(f[0], f[1], False)]):
                        return out + [('viol', 'step:sign', 'pdipm.get_step', 'the step length can be zero or negative (%s)' % label, 'a positive length', clip(e))]
                    for k in mine:
                        if neg_[k]:
                            q = a[k][0][0]
                            co = {i: q.get(i, 0) - f[0].get(i, 0) for i in set(q) | set(f[0])}
                            if feasible(base + [({i: x for i, x in co.items() if x}, -f[1], True)]):
                                return out + [('viol', 'step:far', 'pdipm.get_step', 'the step length can exceed the distance to the boundary of a decreasing component (%s)' % label,
                                               'at most -v / dv for every decreasing component', clip(e))]
                out.append(('ok', 'step length of problem %d (%s)' % (b, label)))
            return out + [('called', sorted(w.ip.called))]

        def go():
            old = set(TT.POSA)
            try:
                collect_(c, label, explore(run, timeout=300))
            finally:
                TT.POSA.clear()
                TT.POSA.update(old)
        c.guard(label, go)
    if (session(c).modv(P).frame, 'get_step') in session(c).st.heap:
        for nb, n in ((1, 1), (1, 2), (2, 1), (1, 3), (2, 2)):
            length(nb, n)
    return c.finish()


def form_of(r):
    """r as a linear form over its own atoms, or None"""
    if not isinstance(r, R) or r.den.t != ONE.num.t:
        return None
    co, k0 = {}, Fraction(0)
    for m, x in r.num.t.items():
        x = Fraction(x)
        if not m:
            k0 += x
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = TT.Atom.by_id[m[0][0]]
        f = form_of(a.args[0]) if a.tag == 'q' and a.args[1] == ONE else ({m[0][0]: Fraction(1)}, Fraction(0))
        if f is None:
            return None
        k0 += x * f[1]
        for k, y in f[0].items():
            co[k] = co.get(k, 0) + x * y
    return {k: y for k, y in co.items() if y}, k0


def known_forms(o):
    out = []
    for r, strict in lt_facts(o):
        f = form_of(r)
        if f is not None:
            out.append((f[0], f[1], strict))
    return out


def start_only(a):
    """Only conditions on the first solution alone stay open."""
    for x in TT.all_atoms(a):
        if x.tag == 'sym' and not str(x.args[0]).startswith('st'):
            return Real(5).num(a.args[0]) < 0 if a.tag == 'lt0' else None
        if x.tag in ('sqrt', 'abs'):
            return Real(5).num(a.args[0]) < 0 if a.tag == 'lt0' else None
    return None


def one_order(a):
    """For a batch: comparisons between problems, of lengths and with huge numbers are taken at one point
    (their every order is explored for single problems); comparisons within a problem stay open."""
    batch = set()
    for x in TT.all_atoms(a):
        if x.tag == 'sym' and len(x.args) > 1:
            n = str(x.args[0])
            if n.startswith('len'):
                batch.add('len')
            elif n == 'a':
                batch.add(x.args[2])
            elif n.startswith('st'):
                batch.add(x.args[2])
    if a.tag != 'lt0' or not batch:
        return None
    huge = any(0 < abs(k) < Fraction(1, 10 ** 50) or abs(k) > 10 ** 50 for p in (a.args[0].num, a.args[0].den) for k in p.t.values())
    if batch == {'len'} or len(batch - {'len'}) > 1 or huge:
        return Real(5).num(a.args[0]) < 0
    return None


one_order.record = True


def collect_(c, label, results):
    n = 0
    for path in results:
        n += 1
        for r in path:
            if r[0] == 'ok':
                c.obl.append((r[1], 'discharged'))
            elif r[0] == 'viol':
                c.viol(*r[1:])
            elif r[0] == 'called':
                c.analysed |= set(r[1])
            elif r[0] == 'error':
                c.undecided('%s: %s' % (label, r[1]))
            elif r[0] == 'raises':
                for kind, what, func, loc in r[1]:
                    c.viol('raises:%s:%s' % (func, what), '%s (%s)' % (loc, func), '%s: a valid problem makes this raise %s' % (label, what))
            elif r[0] == 'dead':
                c.undecided('%s: a path ends without a result' % label)
    c.counts[label] = {'paths': n}


def simple(x):
    return L.hide(x) if isinstance(x, R) else x


def ratio(a, b):
    """the constant a / b, or None"""
    out = []
    for seed in (1, 2, 3):
        e = Real(seed)
        try:
            out.append(e.num(a) / e.num(b))
        except (ZeroDivisionError, OverflowError):
            return None
    if max(out) - min(out) > 1e-9 * (1 + abs(out[0])):
        return None
    return Fraction(out[0]).limit_denominator(10 ** 6)


def lt_facts(o):
    """(r, strict): r < 0 resp. r <= 0 on this path"""
    for a, v in o.facts.truth.items():
        if a.tag == 'lt0':
            yield (a.args[0], True) if v else (neg(a.args[0]), False)


def linear(r, vs):
    """r as a linear form over the unknowns vs: ({k: coefficient}, constant), or None"""
    if r.den.t != ONE.num.t:
        return None
    co, k0 = {}, Fraction(0)
    ids = {next(iter(v.num.t))[0][0]: k for k, v in enumerate(vs)}
    for m, c in r.num.t.items():
        if not m:
            k0 = Fraction(c)
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in ids:
            co[ids[m[0][0]]] = Fraction(c)
        else:
            return None
    return co, k0


def feasible(cons):
    """Fourier-Motzkin: is there a point with every (coefficients, constant, strict) form negative resp. nonpositive?"""
    vs = sorted({k for co, c, s in cons for k in co})
    for v in vs:
        up, lo, rest = [], [], []
        for co, c, s in cons:
            a = co.get(v, 0)
            (up if a > 0 else lo if a < 0 else rest).append((co, c, s))
        for cu, ku, su in up:
            for cl, kl, sl in lo:
                fa, fb = -cl[v], cu[v]
                co = {}
                for k in set(cu) | set(cl):
                    x = cu.get(k, 0) * fa + cl.get(k, 0) * fb
                    if x and k != v:
                        co[k] = x
                rest.append((co, ku * fa + kl * fb, su or sl))
        cons = rest
    return all(c < 0 if s else c <= 0 for co, c, s in cons)


def admissible(o, al, lz, ls):
    """None if the length is positive and strictly below both limits on this path, else why not."""
    vs = [lz, ls]
    base = [({0: Fraction(-1)}, Fraction(0), True), ({1: Fraction(-1)}, Fraction(0), True)]
    for r, strict in lt_facts(o):
        f = linear(r, vs)
        if f is not None:
            base.append((f[0], f[1], strict))
    for k, cand in enumerate((lz, ls, ONE)):
        f = ratio(al, cand)
        if f is None or not same(al, mul(R.c(f), cand)):
            continue
        form = {k: f} if k < 2 else {}
        const = Fraction(0) if k < 2 else f
        if feasible(base + [(form, const, False)]):
            return 'length %r can be negative or zero' % (al,)
        for j, n in ((0, 'multipliers'), (1, 'slacks')):
            # is limit <= length possible?
            co = {i: -x for i, x in form.items()}
            co[j] = co.get(j, 0) + 1
            co = {i: x for i, x in co.items() if x}
            if feasible(base + [(co, -const, False)]):
                return 'length %r is not below the limit of the %s' % (al, n)
        return None
    return 'length %r' % (al,)


def order(o, totals):
    """le(i, j): total i <= total j follows from the comparisons on this path; totals are alternatives of one number."""
    n = len(totals)
    known = [[i == j for j in range(n)] for i in range(n)]
    for r, strict in lt_facts(o):
        for i in range(n):
            for j in range(n):
                if i != j and not known[i][j]:
                    for x in totals[i]:
                        for y in totals[j]:
                            d = sub(x, y)
                            f = ratio(r, d)
                            if f is not None and f > 0 and same(r, mul(R.c(f), d)):
                                known[i][j] = True
    for k in range(n):
        for i in range(n):
            for j in range(n):
                known[i][j] = known[i][j] or (known[i][k] and known[k][j])
    return lambda i, j: known[i][j]


CHECKS = {'C25': c25, 'C26': c26, 'C27': c27}

"""Forward abstract interpreter over the syntax trees of the package.

Abstract state = heap of gated values (terms.py) + path condition.  Branches are analysed
once per side and joined; loops of statically known trip count are expanded, other loops are
solved by an (optimistic) fixpoint over loop-head value numbers; calls are resolved through the
abstract heap and analysed context-sensitively.  Nothing of the analysed program is executed.
"""
import ast
import os
import sys

from fractions import Fraction

from .terms import *
from .terms import UNDEF, Imprecise, leaves, b_atom, must_facts, _neg_facts as neg_facts
from .values import *
from .ident import identical

sys.setrecursionlimit(20000)

UNROLL = 60


def is_num(v):
    return isinstance(v, R) or isinstance(v, bool)


def num(v):
    """bool leaves -> numbers."""
    if v is True:
        return ONE
    if v is False:
        return ZERO
    return v


def is_scalar_leaf(v):
    return isinstance(v, (R, bool))


def first_leaf(v):
    while isinstance(v, DD):
        v = v.hi
    return v


def all_leaves(v):
    out = []
    seen = set()

    def go(x):
        if isinstance(x, DD):
            if id(x) in seen:
                return
            seen.add(id(x))
            go(x.hi)
            go(x.lo)
        elif not any(x is y or (type(x) is type(y) and x == y) for y in out):
            out.append(x)
    go(v)
    return out


def mergeval(g, a, b):
    """g ? a : b with componentwise merging of aggregates."""
    if a is b or (type(a) is type(b) and a == b):
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, TData) and isinstance(b, TData) and len(a.elems) == len(b.elems):
        return TData([x if x is y else ite(g, x, y) for x, y in zip(a.elems, b.elems)])
    if isinstance(a, LV) and isinstance(b, LV) and len(a.items) == len(b.items):
        return LV([mergeval(g, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
        return TupV([mergeval(g, x, y) for x, y in zip(a.items, b.items)], a.names if a.names == b.names else ())
    if isinstance(a, DV) and isinstance(b, DV) and [k for k, _ in a.items] == [k for k, _ in b.items]:
        return DV([(k, mergeval(g, x, y)) for (k, x), (_, y) in zip(a.items, b.items)])
    return ite(g, a, b)


class Raised:
    __slots__ = ("guard", "what", "loc", "kind", "func")

    def __init__(self, guard, what, loc, kind):
        self.guard, self.what, self.loc, self.kind = guard, what, loc, kind
        self.func = None

    def __repr__(self):
        return '%s at %s when %r' % (self.what, self.loc, self.guard)


class Interp:
    def __init__(self, root):
        self.root = root
        self.counter = 1000
        self.uid = 0
        self.modules = {}
        self.parent = {}          # frame -> enclosing frame
        self.frame_func = {}
        self.globals_decl = {}
        self.st0 = State()
        self.loops = []           # stacks of exit lists
        self.rets = []
        self.raised = []
        self.tries = []
        self.where = []           # call stack of (Func, node)
        self.overrides = {}       # qualname -> fn(interp, st, fn, args, kw)
        self.called = {}          # qualname -> count
        self.wsite = {}
        self.members = {}         # opaque membership tests: id -> (elements, container)
        self.notes = []
        self.curmod = None
        self.curnode = None
        self.yields = []
        self.stmts = 0
        self.cast_log = []
        self.ext_calls = {}
        self.logs = []                # lists that hooks append to
        self.ext_over = {}
        self.starred = False      # an external module was star-imported
        self.unknown_ext = set()
        self.obj_call_hook = None
        self.hide_values = False
        self.decide_values = False
        self.collide_hook = None
        self.hits_hook = None     # contacts reported by ode.collide
        self.cached_funcs = []
        self.nonlocals = {}
        self.tries = []
        self.inst_cache = {}
        self.inst_data = {}
        self.loop_info = []
        from . import lib
        self.lib = lib
        lib.install(self)

    # ------------------------------------------------------------ basics
    def new(self):
        self.counter += 1
        return self.counter

    def fresh(self, tag='top'):
        self.uid += 1
        return Atom(tag, self.uid)

    def loc(self):
        if self.curnode is not None and self.curmod is not None:
            return '%s:%d' % (self.curmod.path, getattr(self.curnode, 'lineno', 0))
        return '?'

    def here(self):
        f = self.where[-1].qual if self.where else '<module>'
        return '%s (%s)' % (self.loc(), f)

    def imprecise(self, msg):
        raise Imprecise('%s [at %s]' % (msg, self.here()))

    def note(self, msg):
        m = '%s [at %s]' % (msg, self.here())
        if m not in self.notes:
            self.notes.append(m)

    # ------------------------------------------------------------ modules
    search = ()      # folders of scripts run in place, relative to the root

    def mod_file(self, name):
        for d in ('',) + tuple(self.search):
            p = os.path.join(self.root, d, *name.split('.'))
            if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
                return os.path.join(p, '__init__.py')
            if os.path.exists(p + '.py'):
                return p + '.py'
        return None

    def load(self, name, st):
        if name in self.modules:
            return self.modules[name]
        f = self.mod_file(name)
        if f is None:
            return None
        if '.' in name:
            self.load(name.rsplit('.', 1)[0], st)
        with open(f) as fh:
            tree = ast.parse(fh.read(), f)
        fr = self.new()
        m = ModuleV(name, os.path.relpath(f, self.root), fr, tree)
        self.modules[name] = m
        self.parent[fr] = None
        st.heap[(fr, '__name__')] = name
        st.heap[(fr, '__file__')] = f
        save = (self.curmod, self.curnode)
        self.curmod = m
        self.exec_block(tree.body, st, fr)
        self.curmod, self.curnode = save
        if '.' in name:
            pm = self.modules[name.rsplit('.', 1)[0]]
            st.heap.setdefault((pm.frame, name.rsplit('.', 1)[1]), m)
        return m

    # ------------------------------------------------------------ heap helpers
    def new_list(self, st, items):
        a = self.new()
        st.heap[(a, 'c')] = LV(items)
        return Ref('list', a)

    def content(self, ref, st):
        return st.heap[(ref.addr, 'c')]

    def new_obj(self, cls):
        return Obj(self.new(), cls)

    # ------------------------------------------------------------ names
    def lookup(self, name, st, frame):
        f = frame
        if name in self.globals_decl.get(f, ()):
            f = self.module_frame(f)
        while f is not None:
            k = (f, name)
            if k in st.heap:
                v = st.heap[k]
                if v is UNDEF:
                    self.imprecise('name %s may be undefined' % name)
                return v
            f = self.parent.get(f)
        b = self.lib.BUILTINS.get(name)
        if b is not None:
            return b
        import builtins
        if hasattr(builtins, name) or self.starred:
            self.imprecise('unknown name %s' % name)
        self.fail('NameError', 'name %s is not defined' % name, st)

    def module_frame(self, f):
        while self.parent.get(f) is not None:
            f = self.parent[f]
        return f

    def store_name(self, name, v, st, frame):
        f = frame
        if name in self.globals_decl.get(frame, ()):
            f = self.module_frame(frame)
        elif name in self.nonlocals.get(frame, ()):
            f = self.parent[frame]
            while f is not None and (f, name) not in st.heap:
                f = self.parent.get(f)
        st.heap[(f, name)] = v
        self.wsite[(f, name)] = self.loc()

    nonlocals = {}

    # ------------------------------------------------------------ merging
    def merge_into(self, st, g, s1, s2):
        """st := g ? s1 : s2 (both derived from st)."""
        if s1.dead and s2.dead:
            st.become(s1)
            st.dead = True
            return
        if s1.dead:
            st.become(s2)
            return
        if s2.dead:
            st.become(s1)
            return
        heap = dict(s1.heap)
        h2 = s2.heap
        for k, b in h2.items():
            a = heap.get(k, UNDEF)
            if a is not b:
                heap[k] = mergeval(g, a, b)
        st.nograd = s1.nograd
        st.heap = heap
        st.guard = b_or(s1.guard, s2.guard)
        st.dead = False

    def fork(self, v, st, fn):
        """Run fn(leaf, state) for every leaf of v; join states and values."""
        if not isinstance(v, DD):
            return fn(v, st)
        v = restrict(v, st.guard)
        if self.oracle is not None:
            v = self.oracle.decide(v)
        if not isinstance(v, DD):
            return fn(v, st)
        # group equal leaves
        ls = all_leaves(v)
        if len(ls) == 1:
            return fn(ls[0], st)
        outs = []
        for lf in ls:
            g = lift(lambda x, lf=lf: (x is lf) or (type(x) is type(lf) and x == lf), v)
            gg = b_and(st.guard, g)
            if gg is False:
                continue
            s = st.clone(gg)
            try:
                r = fn(lf, s)
            except AbsRaise:
                s.dead = True
                r = UNDEF
            outs.append((g, s, r))
        alive = [o for o in outs if not o[1].dead]
        if not alive:
            st.dead = True
            raise AbsRaise()
        g, s, r = alive[-1]
        acc_s, acc_r = s, r
        for g, s, r in reversed(alive[:-1]):
            n = st.clone()
            self.merge_into(n, g, s, acc_s)
            acc_r = mergeval(g, r, acc_r)
            acc_s = n
        st.become(acc_s)
        return acc_r

    def fold_exits(self, exits):
        """[(Exit)] with exclusive guards -> (value, state)."""
        exits = [e for e in exits if e.guard is not False]
        if not exits:
            return None
        last = exits[-1]
        acc_v, acc_s = last.value, last.st
        for e in reversed(exits[:-1]):
            n = State()
            g = e.guard
            self.merge_into(n, g, e.st, acc_s)
            acc_v = mergeval(g, e.value, acc_v)
            acc_s = n
        return acc_v, acc_s

    def rel_exits(self, exits, entry_guard):
        for e in exits:
            e.guard = restrict(e.guard, entry_guard)
        return exits

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        if self.oracle is not None:
            stmts = self.unrotate(stmts)
        for s in stmts:
            if st.dead:
                return
            try:
                self.exec(s, st, fr)
            except AbsRaise:
                st.dead = True
                return

    # ---- loop shapes along single paths
    shapes = {}

    @staticmethod
    def own_continue(stmts):
        """a continue of this loop (not of an inner one)"""
        for s in stmts:
            if isinstance(s, ast.Continue):
                return True
            if isinstance(s, (ast.For, ast.While)):
                if Interp.own_continue(s.orelse):
                    return True
            elif isinstance(s, (ast.If, ast.With, ast.Try)):
                for f in ('body', 'orelse', 'finalbody'):
                    if Interp.own_continue(getattr(s, f, None) or []):
                        return True
                for h in getattr(s, 'handlers', []):
                    if Interp.own_continue(h.body):
                        return True
        return False

    @staticmethod
    def built(node, like):
        for x in ast.walk(node):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, like)
        return ast.fix_missing_locations(node)

    def exit_unless(self, test, like):
        return self.built(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=[ast.Break()], orelse=[]), like)

    def unrotate(self, stmts):
        """T; while c: B; T  ->  while True: T; if not c: break; B"""
        hit = self.shapes.get(id(stmts))
        if hit is not None and hit[0] is stmts:
            return hit[1]
        out = []
        for s in stmts:
            if isinstance(s, ast.While) and not isinstance(s.test, ast.Constant) and not s.orelse and out and not self.own_continue(s.body):
                k = 0
                while k < len(out) and k < len(s.body) and ast.dump(out[-1 - k]) == ast.dump(s.body[-1 - k]):
                    k += 1
                if k:
                    tail = out[-k:]
                    del out[-k:]
                    s = self.built(ast.While(test=ast.Constant(value=True), body=tail + [self.exit_unless(s.test, s)] + s.body[:-k], orelse=[]), s)
            out.append(s)
        self.shapes[id(stmts)] = (stmts, out)
        return out

    def inverted(self, s):
        """while c: B  ->  if c: while True: B; if not c: break"""
        hit = self.shapes.get(id(s))
        if hit is not None and hit[0] is s:
            return hit[1]
        if self.own_continue(s.body):
            n = self.built(ast.While(test=ast.Constant(value=True), body=[self.exit_unless(s.test, s)] + s.body, orelse=[]), s)
        else:
            n = self.built(ast.While(test=ast.Constant(value=True), body=s.body + [self.exit_unless(s.test, s)], orelse=[]), s)
            n = self.built(ast.If(test=s.test, body=[n], orelse=[]), s)
        self.shapes[id(s)] = (s, n)
        return n

    def runs_concretely(self, s, st, fr):
        """the loop has a fixed number of iterations whatever its body decides"""
        probe = st.clone()
        oracle, self.oracle = self.oracle, None
        marks = len(self.raised), len(self.rets[-1]) if self.rets else 0
        try:
            for n in range(UNROLL + 1):
                g = self.truth(self.ev(s.test, probe, fr), probe)
                g = restrict(g, probe.guard)
                if g is False:
                    return True
                if g is not True:
                    return False
                breaks, conts = [], []
                self.loops.append((breaks, conts))
                try:
                    self.exec_block(s.body, probe, fr)
                finally:
                    self.loops.pop()
                self.join_conts(conts, probe)
                if probe.dead:
                    return True
            return False
        except (Imprecise, AbsRaise):
            return False
        finally:
            self.oracle = oracle
            del self.raised[marks[0]:]
            if self.rets:
                del self.rets[-1][marks[1]:]

    def exec(self, s, st, fr):
        self.curnode = s
        self.stmts += 1
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.imprecise('statement %s not modelled' % type(s).__name__)
        m(s, st, fr)

    def x_Pass(self, s, st, fr):
        pass

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def x_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)

    def x_AugAssign(self, s, st, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, fr)
            v = self.ev(s.value, st, fr)
            n = self.inplace(op, old, v, st)
            self.store_name(t.id, n, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            old = self.getattr(o, t.attr, st)
            v = self.ev(s.value, st, fr)
            n = self.inplace(op, old, v, st)
            self.setattr(o, t.attr, n, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            i = self.ev_index(t.slice, st, fr)
            old = self.getitem(o, i, st)
            v = self.ev(s.value, st, fr)
            n = self.inplace(op, old, v, st)
            self.setitem(o, i, n, st)
        else:
            self.imprecise('augmented assignment target')

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.heap.pop((fr, t.id), None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st, fr)
                st.heap.pop((o.addr, t.attr), None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                i = self.ev_index(t.slice, st, fr)
                c = self.content(o, st)
                if isinstance(c, DV):
                    st.heap[(o.addr, 'c')] = DV([(k, v) for k, v in c.items if k != i])
                elif isinstance(c, LV):
                    k = int(i.const())
                    l = list(c.items)
                    del l[k]
                    st.heap[(o.addr, 'c')] = LV(l)
                else:
                    self.imprecise('del')

    def x_Global(self, s, st, fr):
        self.globals_decl.setdefault(fr, set()).update(s.names)

    def x_Nonlocal(self, s, st, fr):
        self.nonlocals.setdefault(fr, set()).update(s.names)

    def x_Import(self, s, st, fr):
        for a in s.names:
            top = a.name.split('.')[0]
            if self.mod_file(top):
                m = self.load(a.name, st)
                if m is None:
                    v = Ext(a.name)
                else:
                    v = m if a.asname else self.modules[top]
                st.heap[(fr, a.asname or top)] = v
            else:
                st.heap[(fr, a.asname or top)] = Ext(a.name if a.asname else top)

    def x_ImportFrom(self, s, st, fr):
        if s.level:
            base = self.curmod.name.split('.')
            is_pkg = self.curmod.path.endswith('__init__.py')
            drop = s.level - (1 if is_pkg else 0)
            base = base[:len(base) - drop] if drop else base
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        if self.mod_file(name.split('.')[0]) is None:
            for a in s.names:
                st.heap[(fr, a.asname or a.name)] = Ext(name + '.' + a.name)
            return
        m = self.load(name, st)
        if m is None:
            self.imprecise('cannot import %s' % name)
        for a in s.names:
            if a.name == '*':
                for (f, k), v in list(st.heap.items()):
                    if f == m.frame and isinstance(k, str) and not k.startswith('_'):
                        st.heap[(fr, k)] = v
                continue
            k = (m.frame, a.name)
            if k in st.heap:
                st.heap[(fr, a.asname or a.name)] = st.heap[k]
            else:
                sub = self.load(name + '.' + a.name, st)
                if sub is None:
                    self.imprecise('name %s not found in %s' % (a.name, name))
                st.heap[(fr, a.asname or a.name)] = sub

    def x_FunctionDef(self, s, st, fr):
        f = self.make_func(s, st, fr, None)
        v = self.decorate(s, f, st, fr)
        self.store_name(s.name, v, st, fr)

    def decorate(self, s, f, st, fr):
        v = f
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                f.kind = d.id
                continue
            if isinstance(d, ast.Attribute) and d.attr == 'setter':
                f.kind = 'setter'
                continue
            dv = self.ev(d, st, fr)
            v = self.call(dv, [v], {}, st)
        return v

    def make_func(self, s, st, fr, cls):
        a = s.args
        dfl = [self.ev(d, st, fr) for d in a.defaults]
        kd = [None if d is None else self.ev(d, st, fr) for d in a.kw_defaults]
        return Func(s, self.curmod, fr, cls, getattr(s, 'name', '<lambda>'), dfl, kd)

    def fields_of(self, s, st, fr):
        fs = []
        for x in s.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                fs.append((x.target.id, UNDEF if x.value is None else self.ev(x.value, st, fr)))
        return fs

    def record(self, name, fields, defaults):
        """Constructor of a named tuple type."""
        def make(ip, st, args, kw):
            vals = dict(defaults)
            vals.update(zip(fields, args))
            vals.update(kw)
            if len(args) > len(fields) or set(vals) != set(fields):
                ip.fail('TypeError', 'arguments of %s' % name, st)
            return TupV([vals[k] for k in fields], tuple(fields))
        return PyFn(make)

    def x_ClassDef(self, s, st, fr):
        bases = [self.ev(b, st, fr) for b in s.bases]
        if any(isinstance(b, Ext) and b.path == 'typing.NamedTuple' for b in bases):
            if any(isinstance(x, ast.FunctionDef) for x in s.body):
                self.imprecise('named tuple class with methods')
            fs = self.fields_of(s, st, fr)
            st.heap[(fr, s.name)] = self.record(s.name, [k for k, _ in fs], {k: v for k, v in fs if v is not UNDEF})
            return
        data = [d for d in s.decorator_list if ast.unparse(d).split('(')[0].split('.')[-1] == 'dataclass']
        cls = ClassV(s.name, bases, self.curmod, s, self.new())
        st.heap[(fr, s.name)] = cls
        if data:
            cls.fields = self.fields_of(s, st, fr)
        cf = self.new()
        self.parent[cf] = fr
        for sub in s.body:
            if isinstance(sub, ast.FunctionDef):
                f = self.make_func(sub, st, cf, cls)
                v = self.decorate(sub, f, st, cf)
                st.heap[(cf, sub.name)] = v
                if isinstance(f, Func) and f.kind == 'setter':
                    old = st.heap.get((cls.addr, sub.name))
                    if isinstance(old, Func):
                        old.setter = f
                    st.heap[(cf, sub.name)] = old
                    continue
                st.heap[(cls.addr, sub.name)] = v
            else:
                self.exec_block([sub], st, cf)
                for (f2, k), v in list(st.heap.items()):
                    if f2 == cf:
                        st.heap[(cls.addr, k)] = v
        # methods resolve names in the enclosing (not class) scope
        for (f2, k), v in list(st.heap.items()):
            if f2 == cf and isinstance(v, Func) and v.frame == cf:
                v.frame = fr

    def x_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else None
        if st.dead:
            return
        self.rets[-1].append(Exit('return', st.guard, v, st.clone(), s.lineno))
        st.dead = True

    def x_Break(self, s, st, fr):
        self.loops[-1][0].append(Exit('break', st.guard, None, st.clone(), s.lineno))
        st.dead = True

    def x_Continue(self, s, st, fr):
        self.loops[-1][1].append(Exit('continue', st.guard, None, st.clone(), s.lineno))
        st.dead = True

    def x_Raise(self, s, st, fr):
        what = ast.unparse(s.exc) if s.exc is not None else 'raise'
        name = what.split('(')[0]
        self.raised.append(Raised(st.guard, what, self.loc(), 'raise'))
        if self.tries:
            self.tries[-1].append(Exit(name, st.guard, None, st.clone(), s.lineno))
        st.dead = True

    def x_Assert(self, s, st, fr):
        g = self.truth(self.ev(s.test, st, fr), st)
        g = restrict(g, st.guard)
        if g is True:
            return
        ng = b_and(st.guard, b_not(g))
        if ng is not False:
            self.raised.append(Raised(ng, 'AssertionError', self.loc(), 'assert'))
        if g is False:
            st.dead = True
            return
        st.guard = b_and(st.guard, g)
        if st.guard is False:
            st.dead = True

    def x_If(self, s, st, fr):
        g = self.truth(self.ev(s.test, st, fr), st)
        if st.dead:
            return
        self.branch(g, st, lambda x: self.exec_block(s.body, x, fr),
                    lambda x: self.exec_block(s.orelse, x, fr))

    def branch(self, g, st, f1, f2):
        g = restrict(g, st.guard)
        if g is True:
            return f1(st)
        if g is False:
            return f2(st)
        g1, g2 = b_and(st.guard, g), b_and(st.guard, b_not(g))
        if g1 is False:
            return f2(st)
        if g2 is False:
            return f1(st)
        s1, s2 = st.clone(g1), st.clone(g2)
        f1(s1)
        f2(s2)
        self.merge_into(st, g, s1, s2)

    def x_With(self, s, st, fr):
        self.with_items(s, 0, st, fr)

    ctx_body = None

    def with_items(self, s, i, st, fr):
        if i == len(s.items):
            self.exec_block(s.body, st, fr)
            return
        it = s.items[i]
        done = []
        env = (self.curmod, self.curnode, self.loops, self.tries)
        depth = (len(self.yields), len(self.where), st.nograd)

        def body(v, x):
            # the block runs where the generator yields; leaving it early would skip the rest of
            # the generator
            done.append(1)
            mine = (self.curmod, self.curnode, self.loops, self.tries, self.yields, self.rets, x.nograd)
            self.curmod, self.curnode, self.loops, self.tries = env
            self.yields, self.rets, x.nograd = self.yields[:depth[0]], self.rets[:-1], x.nograd
            counts = [len(r) for r in self.rets] + [len(l) for ls in self.loops[-1:] for l in ls]
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, x, fr)
            self.with_items(s, i + 1, x, fr)
            if counts != [len(r) for r in self.rets] + [len(l) for ls in self.loops[-1:] for l in ls]:
                self.imprecise('leaving a with block early')
            self.curmod, self.curnode, self.loops, self.tries, self.yields, self.rets, x.nograd = mine
        save, self.ctx_body = self.ctx_body, body
        v = self.ev(it.context_expr, st, fr)
        self.ctx_body = save
        if done:
            if len(done) > 1:
                self.imprecise('context manager yields more than once')
            return
        n = 1 if isinstance(v, Opaque) and v.name == ('no_grad',) else 0
        enter = self.class_attr(v.cls, '__enter__', st) if isinstance(v, Obj) and v.cls else None
        obj = v
        if enter is not None:
            v = self.call_func(enter[0], [obj], {}, st)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, st, fr)
        counts = [len(r) for r in self.rets] + [len(l) for ls in self.loops[-1:] for l in ls]
        st.nograd += n
        self.with_items(s, i + 1, st, fr)
        st.nograd -= n
        if enter is not None:
            if counts != [len(r) for r in self.rets] + [len(l) for ls in self.loops[-1:] for l in ls]:
                self.imprecise('leaving a with block early')
            leave = self.class_attr(obj.cls, '__exit__', st)
            if leave is None:
                self.imprecise('context manager without __exit__')
            self.call_func(leave[0], [obj, None, None, None], {}, st)

    def x_Try(self, s, st, fr):
        entry = st.clone()
        self.tries.append([])
        body = st.clone()
        nr = len(self.rets[-1]) if self.rets else 0
        self.exec_block(s.body, body, fr)
        ex = self.tries.pop()
        if not body.dead:
            self.exec_block(s.orelse, body, fr)
        outs = []
        if not body.dead:
            outs.append(Exit('ok', body.guard, None, body))
        # explicit raises inside the try body
        for e in ex:
            hs = [h for h in s.handlers if h.type is None or self.catches(h.type, e.kind)]
            if not hs:
                continue
            h = hs[0]
            self.raised = [r for r in self.raised if not (r.guard is e.guard and r.kind == 'raise')]
            hst = e.st.clone(e.guard)
            hst.dead = False
            if h.name:
                st_v = Opaque(('exc', e.kind))
                hst.heap[(fr, h.name)] = st_v
            self.exec_block(h.body, hst, fr)
            if not hst.dead:
                outs.append(Exit('handler', e.guard, None, hst))
        # library failures inside the body (modelled only when the body calls the libraries)
        if s.handlers and self.try_may_fail(s, st, fr) and not ex:
            fail = Atom('fails', self.mod_key(s))
            h = s.handlers[0]
            gf = b_and(entry.guard, b_atom(fail))
            hst = entry.clone(gf)
            if h.name:
                hst.heap[(fr, h.name)] = Opaque(('exc', 'library'))
            save = len(self.rets[-1]) if self.rets else 0
            # the returns of the body happen only when it does not fail
            if self.rets:
                for e in self.rets[-1][nr:]:
                    e.guard = b_and(e.guard, b_not(b_atom(fail)))
            self.exec_block(h.body, hst, fr)
            for o in outs:
                o.guard = b_and(o.guard, b_not(b_atom(fail)))
                o.st.guard = o.guard
            if not hst.dead:
                outs.append(Exit('handler', gf, None, hst))
        if not outs:
            st.dead = True
        else:
            r = self.fold_exits(outs)
            st.become(r[1])
        if s.finalbody:
            d = st.dead
            st.dead = False
            self.exec_block(s.finalbody, st, fr)
            st.dead = st.dead or d

    def mod_key(self, s):
        return '%s:%s' % (self.curmod.path, self.where[-1].qual if self.where else '')

    try_hook = None

    def try_may_fail(self, s, st, fr):
        return self.try_hook(s) if self.try_hook else False

    def catches(self, t, kind):
        if isinstance(t, ast.Tuple):
            return any(self.catches(x, kind) for x in t.elts)
        n = ast.unparse(t)
        return n in ('Exception', 'BaseException') or n == kind

    # ------------------------------------------------------------ loops
    def x_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        self.loop_over(it, st, lambda v, x: self.assign(s.target, v, x, fr),
                       lambda x: self.exec_block(s.body, x, fr), s, fr,
                       lambda x: self.exec_block(s.orelse, x, fr))

    def loop_over(self, it, st, bind, body, node, fr, orelse=None):
        def run(lf, s):
            items = self.items_of(lf, s)
            if isinstance(items, DD):
                return self.fork(items, s, lambda l2, s2: go(self.items_of(l2, s2), s2))
            return go(items, s)

        def go(items, s):
            if isinstance(items, SeqV) and items.n.is_const():
                items = self.force_seq(items, s)
            if isinstance(items, (list, tuple)):
                self.concrete_loop(items, s, bind, body, orelse)
            elif isinstance(items, SeqV):
                self.sym_for(items, s, bind, body, node, orelse)
            else:
                self.imprecise('cannot iterate over %r' % (items,))
            return None
        self.fork(it, st, run)

    def force_seq(self, seq, st):
        n = int(seq.n.const())
        return [seq.get(R.c(k), st) for k in range(max(n, 0))]

    def items_of(self, v, st):
        """list of values, SeqV, or a DD of LV (to be forked)."""
        it = self.items_of0(v, st)
        if isinstance(it, SeqV) and isinstance(it.n, R) and not it.n.is_const():
            n = self.pinned(it.n, st)
            if n is not None:
                return [it.get(R.c(k), st) for k in range(n)]
        return it

    def pinned(self, n, st):
        """The number of items if the path has established it (len(x) == 3)."""
        for m in range(1, 5):
            c = c_eq(n, R.c(m))
            if c is False:
                continue
            c = self.oracle.restrict(c) if self.oracle is not None else c
            if c is True or restrict(c, st.guard) is True:
                return m
        return None

    def items_of0(self, v, st):
        if isinstance(v, (list, tuple)):
            return v
        if isinstance(v, TupV):
            return v.items
        if isinstance(v, SeqV):
            return v
        if isinstance(v, LV):
            return v.items
        if isinstance(v, SymL):
            return SeqV(v.n, lambda k, s, v=v: self.inst(v.body, v.ix, k, s), 'list')
        if isinstance(v, DV):
            return [k for k, _ in v.items]
        if isinstance(v, Ref):
            c = self.content(v, st)
            if isinstance(c, DD):
                return lift(lambda x: x, c)
            return self.items_of(c, st)
        if isinstance(v, Ten):
            if not v.shape:
                self.imprecise('iteration over a 0-d tensor')
            return [self.lib.t_select(self, v, 0, k) for k in range(v.shape[0])]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Opaque):
            return SeqV(R.atom(nat(Atom('len', 'opaque', v.name))), lambda k, s: Opaque(('item', v.name)), 'opaque')
        self.imprecise('cannot iterate over %r' % (v,))

    def concrete_loop(self, items, st, bind, body, orelse):
        breaks = []
        for v in items:
            if st.dead:
                break
            conts = []
            self.loops.append((breaks, conts))
            try:
                bind(v, st)
                body(st)
            except AbsRaise:
                st.dead = True
            self.loops.pop()
            self.join_conts(conts, st)
        if orelse and not st.dead:
            orelse(st)
        self.join_conts(breaks, st)

    def join_conts(self, conts, st):
        if not conts:
            return
        outs = list(conts)
        if not st.dead:
            outs.append(Exit('fall', st.guard, None, st.clone()))
        _, s = self.fold_exits(outs)
        s.guard = outs[0].guard
        for o in outs[1:]:
            s.guard = b_or(s.guard, o.guard)
        st.become(s)
        st.dead = False

    def x_While(self, s, st, fr):
        const_test = isinstance(s.test, ast.Constant)
        breaks = []
        n = 0
        if self.oracle is not None and not const_test and not s.orelse and not self.runs_concretely(s, st, fr):
            return self.exec(self.inverted(s), st, fr)
        if not const_test:
            while True:
                probe = st.clone()
                oracle, self.oracle = self.oracle, None
                g = self.truth(self.ev(s.test, probe, fr), probe)
                self.oracle = oracle
                g = restrict(oracle.restrict(g) if oracle else g, st.guard)
                if g is False:
                    self.ev(s.test, st, fr)
                    if s.orelse and not st.dead:
                        self.exec_block(s.orelse, st, fr)
                    self.join_conts(breaks, st)
                    return
                if g is not True or n > UNROLL:
                    break
                self.ev(s.test, st, fr)
                conts = []
                self.loops.append((breaks, conts))
                self.exec_block(s.body, st, fr)
                self.loops.pop()
                self.join_conts(conts, st)
                n += 1
                if st.dead:
                    self.join_conts(breaks, st)
                    return
            if n and n > UNROLL:
                self.imprecise('loop does not end within %d iterations' % UNROLL)
        if st.dead:
            self.join_conts(breaks, st)
            return
        if const_test and self.oracle is None and self.endless_unrolled(s, st, fr):
            return
        if self.try_counted(s, st, fr):
            return
        self.while_fix(s, st, fr, breaks)

    def endless_unrolled(self, s, st, fr):
        """while True whose exit is certain in some iteration and impossible in those before"""
        save = st.clone()
        nraised, nrets = len(self.raised), len(self.rets[-1]) if self.rets else 0
        ninfo = len(self.loop_info)
        try:
            for n in range(UNROLL):
                breaks, conts = [], []
                self.loops.append((breaks, conts))
                try:
                    self.exec_block(s.body, st, fr)
                finally:
                    self.loops.pop()
                self.join_conts(conts, st)
                if st.dead:
                    self.join_conts(breaks, st)
                    return True
                if breaks or (self.rets and len(self.rets[-1]) > nrets):
                    break
        except Imprecise:
            pass
        st.become(save)
        del self.raised[nraised:]
        del self.loop_info[ninfo:]
        if self.rets:
            del self.rets[-1][nrets:]
        return False

    # ---- value comparison
    def same(self, v1, h1, v2, h2, depth=0, facts=NOFACTS):
        if v1 is v2:
            return True
        if depth > 12:
            return v1 == v2
        if isinstance(v1, DD) or isinstance(v2, DD):
            try:
                if v1 == v2:
                    return True
                j = lift(lambda a, b: TupV((a, b)), v1, v2, facts=facts)
                return all(self.same(l.items[0], h1, l.items[1], h2, depth + 1, f) for f, l in leaves(j, facts))
            except Imprecise:
                return False
        if type(v1) is not type(v2):
            return False
        if isinstance(v1, R):
            return req(v1, v2)
        if isinstance(v1, Ten):
            if v1.shape != v2.shape or v1.dt != v2.dt or v1.det != v2.det:
                return False
            a, b = h1.get((v1.addr, 'c')), h2.get((v2.addr, 'c'))
            if a is None or b is None:
                return False
            if isinstance(a, DD) or isinstance(b, DD):
                return v1 == v2 and a == b
            return all(self.same(a.elems[i], h1, b.elems[j], h2, depth + 1, facts) for i, j in zip(v1.map, v2.map))
        if isinstance(v1, (LV, TupV)):
            return len(v1.items) == len(v2.items) and all(
                self.same(a, h1, b, h2, depth + 1, facts) for a, b in zip(v1.items, v2.items))
        if isinstance(v1, TData):
            return len(v1.elems) == len(v2.elems) and all(
                self.same(a, h1, b, h2, depth + 1, facts) for a, b in zip(v1.elems, v2.elems))
        if isinstance(v1, DV):
            return [k for k, _ in v1.items] == [k for k, _ in v2.items] and all(
                self.same(a, h1, b, h2, depth + 1, facts) for (_, a), (_, b) in zip(v1.items, v2.items))
        if isinstance(v1, Ref):
            if v1.kind != v2.kind:
                return False
            a, b = h1.get((v1.addr, 'c')), h2.get((v2.addr, 'c'))
            if v1.addr == v2.addr and a is b:
                return True
            return a is not None and b is not None and self.same(a, h1, b, h2, depth + 1, facts)
        if isinstance(v1, SymL):
            if v1 == v2:
                return True
            if v1.n != v2.n:
                return False
            if v1.ix is v2.ix:
                return self.same(v1.body, h1, v2.body, h2, depth + 1, facts)
            return False
        return v1 == v2

    # ---- phi construction
    def mkphi(self, back, bh, init, ih, uid, path, st):
        """A loop-head unknown of the kind of `back` (allocated in st)."""
        def lf(b):
            if isinstance(b, bool):
                return 'bool'
            if isinstance(b, R):
                return 'num'
            if isinstance(b, Ten):
                return ('ten', b.shape, b.dt)
            if b is None:
                return 'none'
            if b is UNDEF:
                return 'undef'
            if isinstance(b, TupV):
                return ('tup', len(b.items))
            if isinstance(b, Ref):
                return 'ref'
            return ('other', b)
        kinds = []
        for v in all_leaves(back) + all_leaves(init):
            k = lf(v)
            if k != 'undef' and k not in kinds:
                kinds.append(k)
        if 'bool' in kinds and 'num' in kinds:
            kinds.remove('bool')
        alts = []
        for k in kinds:
            if k == 'bool':
                alts.append(b_atom(Atom('phib', uid, path)))
            elif k == 'num':
                alts.append(R.atom(Atom('phi', uid, path)))
            elif k == 'none':
                alts.append(None)
            elif k[0] == 'ten':
                n = 1
                for x in k[1]:
                    n *= x
                a = self.new()
                elems = [R.atom(Atom('phi', uid, path + '.%d' % j)) for j in range(n)]
                st.heap[(a, 'c')] = TData(elems)
                alts.append(Ten(a, k[1], range(n), k[2]))
            elif k[0] == 'tup':
                bs = [x for x in all_leaves(back) + all_leaves(init) if isinstance(x, TupV) and len(x.items) == k[1]]
                alts.append(TupV([self.mkphi(bs[0].items[j], bh, bs[-1].items[j], ih, uid, path + '.%d' % j, st)
                                  for j in range(k[1])]))
            elif k == 'ref':
                bs = [x for x in all_leaves(back) if isinstance(x, Ref)] or [x for x in all_leaves(init) if isinstance(x, Ref)]
                a = self.new()
                hs = bh if any(isinstance(x, Ref) for x in all_leaves(back)) else ih
                st.heap[(a, 'c')] = self.phi_content(hs[(bs[0].addr, 'c')], hs, uid, path, st)
                alts.append(Ref(bs[0].kind, a))
            else:
                alts.append(k[1] if k[1] is not UNDEF else Opaque(('phi', uid, path)))
        if not alts:
            return UNDEF
        v = alts[0]
        for j, a in enumerate(alts[1:]):
            v = ite(b_atom(Atom('phik', uid, path, j)), a, v)
        return v

    def phi_content(self, c, h, uid, path, st):
        """Unknown list contents: symbolic length, elements of the kind found in c."""
        proto = None
        for lf in all_leaves(c):
            if isinstance(lf, LV) and lf.items:
                proto = lf.items[0]
                break
            if isinstance(lf, SymL):
                proto = lf.body
                break
        if proto is None:
            return PhiL(uid)
        return self.sym_list(('phi', uid, path), proto, h, st)

    def sym_list(self, name, proto, h, st, n=None):
        """A list of unknown length whose elements look like proto."""
        self.uid += 1
        ix = nat(Atom('ix', self.uid))
        if n is None:
            n = R.atom(nat(Atom('len', name)))

        def mk(p, path):
            p = first_leaf(p)
            if isinstance(p, Ten):
                k = 1
                for x in p.shape:
                    k *= x
                a = self.new()
                st.heap[(a, 'c')] = TData([R.atom(Atom('at', name, R.atom(ix), path + '.%d' % j)) for j in range(k)])
                return Ten(a, p.shape, range(k), p.dt)
            if isinstance(p, R):
                return R.atom(Atom('at', name, R.atom(ix), path))
            if isinstance(p, bool):
                return b_atom(Atom('atb', name, R.atom(ix), path))
            if isinstance(p, TupV):
                return TupV([mk(x, path + '.%d' % j) for j, x in enumerate(p.items)], p.names)
            return p
        return SymL(n, ix, mk(proto, ''))

    def inst(self, body, ix, k, st):
        """Instance of a generic element at index k."""
        return self.subst_val(body, {ix: k}, st)

    def subst_val(self, v, m, st, memo=None):
        """Substitute index atoms in a value; tensors get a private instance per index."""
        if memo is None:
            memo = {}
        if isinstance(v, (R, DD)):
            if isinstance(v, DD):
                return self.lift_struct(v, m, st, memo)
            return subst(v, m)
        if isinstance(v, Ten):
            d = st.heap.get((v.addr, 'c'))
            if d is None or isinstance(d, DD):
                return v
            key = ('inst', v.addr) + tuple(sorted(((a.id, x) for a, x in m.items()), key=lambda t: t[0]))
            a = self.inst_cache.get((key, d))
            if a is None:
                nd = TData([subst(x, m) for x in d.elems])
                if nd == d:
                    return v
                a = self.new()
                self.inst_cache[(key, d)] = a
                self.inst_data[a] = nd
                st.heap[(a, 'c')] = nd
            elif (a, 'c') not in st.heap:
                st.heap[(a, 'c')] = self.inst_data[a]
            return Ten(a, v.shape, v.map, v.dt, v.det)
        if isinstance(v, TupV):
            return TupV([self.subst_val(x, m, st, memo) for x in v.items], v.names)
        if isinstance(v, LV):
            return LV([self.subst_val(x, m, st, memo) for x in v.items])
        if isinstance(v, TData):
            return TData([subst(x, m) for x in v.elems])
        if isinstance(v, Ref):
            c = st.heap.get((v.addr, 'c'))
            if c is None:
                return v
            c2 = self.subst_val(c, m, st, memo) if not isinstance(c, (SymL, PhiL)) else c
            if c2 == c:
                return v
            a = self.new()
            st.heap[(a, 'c')] = c2
            return Ref(v.kind, a)
        return v

    inst_cache = {}
    inst_data = {}

    def lift_struct(self, v, m, st, memo):
        if isinstance(v, DD):
            hi = self.lift_struct(v.hi, m, st, memo)
            lo = self.lift_struct(v.lo, m, st, memo)
            c = subst(b_atom(v.c), m)
            return ite(c, hi, lo)
        return self.subst_val(v, m, st, memo)

    # ---- generic (unknown trip count) for-loops
    def sym_for(self, seq, st, bind, body, node, orelse=None, counter=None):
        self.uid += 1
        ix = nat(Atom('ix', self.uid))
        IX = R.atom(ix)
        base = st.clone()
        n = seq.n
        phis = {}                      # key -> phi value
        uid = self.uid
        has_n = c_lt(ZERO, n)
        oracle, self.oracle = self.oracle, None
        for rnd in range(12):
            s = base.clone()
            for k, (pv, extra) in phis.items():
                for ek, evv in extra.items():
                    s.heap[ek] = evv
                s.heap[k] = pv
            head = dict(s.heap)
            breaks, conts = [], []
            rets = []
            self.loops.append((breaks, conts))
            self.rets.append(rets)
            nraised = len(self.raised)
            mark = self.counter
            try:
                bind(seq.get(IX, s), s)
                body(s)
            except AbsRaise:
                s.dead = True
            self.loops.pop()
            self.rets.pop()
            self.join_conts(conts, s)
            if rnd > 0:
                del self.raised[nraised0:nraised]
            nraised0 = nraised
            changed = self.changed_keys(head, s, mark) if not s.dead else []
            new = [k for k in changed if k not in phis]
            if not new:
                break
            for k in new:
                init = base.heap.get(k, UNDEF)
                ps = State()
                pv = self.phi_for(k, s, init, base.heap, uid, ps)
                phis[k] = (pv, ps.heap)
        else:
            self.imprecise('loop analysis does not settle')
        self.oracle = oracle
        if oracle is not None:
            has_n = oracle.decide(has_n)
        # ---------------- classify the loop-carried cells
        sub_last = {ix: sub(n, ONE)}
        final = base.clone()
        if s.dead:
            # never reaches the back edge: runs at most one iteration
            outs = []
            for e in breaks:
                e.guard = subst(e.guard, {ix: ZERO})
            self.imprecise('symbolic loop leaves in its first iteration')
        cells = {}
        phi_atoms = {}
        for k, (pv, extra) in phis.items():
            for a in self.phi_atoms_of(pv, extra):
                phi_atoms[a] = k
        info = {}
        for k, (pv, extra) in phis.items():
            init = base.heap.get(k, UNDEF)
            back = s.heap.get(k, UNDEF)
            info[k] = self.classify(k, pv, extra, init, base, back, s, ix, phi_atoms)
        # placeholders for loop-carried unknowns inside conditions
        prev = {}
        for k, (pv, extra) in phis.items():
            kind = info[k]
            names = self.phi_names(pv, extra)
            for a, comp in names.items():
                if a.tag != 'phi':
                    continue
                if kind[0] == 'select':
                    upd = self.comp_of(kind[2], comp, s)
                    ini = self.comp_of(init_of(base, k), comp, base)
                    if upd is not None and isinstance(upd, (R, DD)):
                        _, (u2,) = close(ix, n, upd)
                        prev[a] = R.atom(Atom('prev', u2, ini if isinstance(ini, (R, DD)) else 'none'))
                elif kind[0] == 'last':
                    upd = self.comp_of(s.heap.get(k), comp, s)
                    if isinstance(upd, (R, DD)):
                        _, (u2,) = close(ix, n, upd)
                        prev[a] = R.atom(Atom('prev', u2, 'last'))

        def closed(g):
            g2 = subst(g, prev) if prev else g
            _, (c,) = close(ix, n, g2)
            return c
        # ---------------- early exits
        exits = [(e, 'break') for e in breaks] + [(e, 'return') for e in rets]
        ex_out = []
        none_left = True
        pre = base.guard
        for e, kind in exits:
            E = restrict(e.guard, pre)
            cg = closed(E)
            first = Atom('first', n, cg)
            nat(first)
            some = b_atom(Atom('exists', n, cg)) if not isinstance(cg, bool) else b_and(cg, has_n)
            m = {ix: R.atom(first)}
            for a, p in prev.items():
                m[a] = subst(p, {}) if False else R.atom(Atom('prevat', p, R.atom(first)))
            inst_g = subst(E, m)
            if oracle is not None and none_left is not False:
                some = oracle.decide(some)
                inst_g = oracle.restrict(inst_g) if some else inst_g
                if some and isinstance(inst_g, DD):
                    oracle.facts = assume_all(oracle.facts, inst_g)
                    inst_g = oracle.restrict(inst_g)
            g = b_and(pre, b_and(some, inst_g))
            if none_left is False:
                g = False
            es = self.subst_state(e.st, m, mark0=mark, base=base)
            es.guard = g
            v = self.subst_val(e.value, m, es) if e.value is not None else None
            ex_out.append((some, g, es, v, kind))
            none_left = b_and(none_left, b_not(some))
        # ---------------- values after a complete run
        shared = {}
        for k, (pv, extra) in phis.items():
            kind = info[k]
            init = base.heap.get(k, UNDEF)
            if kind[0] == 'last':
                for ek, evv in s.heap.items():
                    if ek not in final.heap:
                        final.heap[ek] = evv
                v = self.subst_val(s.heap[k], sub_last, final)
                v = mergeval(has_n, v, init) if has_n is not True else v
                final.heap[k] = v
            elif kind[0] == 'sum':
                final.heap[k] = self.sum_val(kind, init, ix, n, base, s, final)
            elif kind[0] == 'select':
                G, e = kind[1], kind[2]
                cg = closed(G)
                sel = nat(Atom('sel', n, cg))
                m = {ix: R.atom(sel)}
                some = b_atom(Atom('any', n, cg))
                # certainly updated when the first iteration updates
                fm = {ix: ZERO}
                for a, kk in phi_atoms.items():
                    c0 = self.comp_of(base.heap.get(kk, UNDEF), self.phi_names(*phis[kk]).get(a), base)
                    if isinstance(c0, (R, DD)) and not isinstance(first_leaf(c0), bool):
                        fm[a] = c0
                g0 = subst(G, fm)
                if g0 is True:
                    some = has_n
                for ek, evv in s.heap.items():
                    if ek not in final.heap:
                        final.heap[ek] = evv
                v = self.subst_val(e, m, final)
                if oracle is not None:
                    some = oracle.decide(some)
                    if some is True:
                        ig = oracle.restrict(subst(G, m)) if not any(a in phi_atoms for a in all_atoms(G)) else True
                        if isinstance(ig, DD):
                            oracle.facts = assume_all(oracle.facts, ig)
                final.heap[k] = mergeval(some, v, init)
            elif kind[0] == 'append':
                final.heap[k] = kind[1](n, s, final)
            else:
                for ek, evv in extra.items():
                    final.heap[ek] = evv
                final.heap[k] = pv
        # data of storages reachable from final values
        for ek, evv in s.heap.items():
            if ek not in final.heap and isinstance(ek[0], int) and ek[0] > 0 and ek[1] == 'c':
                final.heap[ek] = evv
        final.guard = b_and(pre, none_left)
        if orelse and final.guard is not False:
            orelse(final)
        if final.guard is False:
            final.dead = True
        outs = []
        for some, g, es, v, kind in ex_out:
            if g is False:
                continue
            if kind == 'return':
                self.rets[-1].append(Exit('return', g, v, es))
            else:
                outs.append(Exit('break', restrict(g, pre), None, es))
        if not final.dead:
            outs.append(Exit('end', restrict(final.guard, pre), None, final))
        if not outs:
            st.become(final)
            st.dead = True
            return
        gs = [o.st.guard for o in outs]
        _, m = self.fold_exits(outs)
        gg = gs[0]
        for x in gs[1:]:
            gg = b_or(gg, x)
        m.guard = gg
        st.become(m)

    def subst_state(self, s, m, mark0, base):
        """Instantiate the cells that the loop iteration changed."""
        out = s.clone()
        for k, v in list(s.heap.items()):
            if base.heap.get(k, UNDEF) is v:
                continue
            try:
                if isinstance(v, TData):
                    out.heap[k] = TData([subst(x, m) for x in v.elems])
                elif isinstance(v, (R, DD, TupV, LV)):
                    out.heap[k] = self.map_nontensor(v, m)
            except Imprecise:
                raise
        return out

    def map_nontensor(self, v, m):
        if isinstance(v, R):
            return subst(v, m)
        if isinstance(v, DD):
            c = subst(b_atom(v.c), m)
            return ite(c, self.map_nontensor(v.hi, m), self.map_nontensor(v.lo, m))
        if isinstance(v, TupV):
            return TupV([self.map_nontensor(x, m) for x in v.items], v.names)
        if isinstance(v, LV):
            return LV([self.map_nontensor(x, m) for x in v.items])
        return v

    def changed_keys(self, head, s, mark):
        out = []
        for k, v in s.heap.items():
            if k in head:
                if head[k] is v:
                    continue
                if not self.same(head[k], head, v, s.heap):
                    out.append(k)
            elif isinstance(k[0], int) and k[0] > mark:
                continue            # storage or frame created in the body
            elif isinstance(k[0], int) and k[0] in self.inst_data:
                continue
            else:
                out.append(k)
        return out

    def phi_for(self, k, s, init, ih, uid, ps):
        back = s.heap[k]
        path = '%s.%s' % (k[0], k[1])
        if isinstance(back, TData) or isinstance(init, TData):
            n = len(first_leaf(back).elems)
            iv = init.elems if isinstance(init, TData) else [UNDEF] * n
            return TData([x if x is y or x == y else self.mkphi(x, s.heap, y, ih, uid, path + '#%d' % j, ps)
                          for j, (x, y) in enumerate(zip(back.elems, iv))])
        lb, li = first_leaf(back), first_leaf(init)
        if isinstance(lb, (LV, SymL, PhiL)) or isinstance(li, (LV, SymL, PhiL)):
            if isinstance(back, LV) and isinstance(init, LV) and len(back.items) == len(init.items):
                return LV([x if x is y or x == y or self.same(x, s.heap, y, ih) else
                           self.mkphi(x, s.heap, y, ih, uid, path + '[%d]' % j, ps)
                           for j, (x, y) in enumerate(zip(back.items, init.items))])
            return PhiL((uid, path))
        if isinstance(back, DV):
            if isinstance(init, DV) and [a for a, _ in init.items] == [a for a, _ in back.items]:
                return DV([(a, x if x is y or x == y or self.same(x, s.heap, y, ih) else
                            self.mkphi(x, s.heap, y, ih, uid, path + '[%r]' % (a,), ps))
                           for (a, x), (_, y) in zip(back.items, init.items)])
            self.imprecise('dictionary grows in a loop')
        return self.mkphi(back, s.heap, init, ih, uid, path, ps)

    def phi_names(self, pv, extra):
        """phi atom -> component path inside the cell."""
        out = {}

        def go(v, path):
            for lf in all_leaves(v):
                if isinstance(lf, R):
                    for a in lf.atoms():
                        if a.tag == 'phi':
                            out[a] = path
                elif isinstance(lf, Ten):
                    d = extra.get((lf.addr, 'c'))
                    if d is not None:
                        for j, x in enumerate(d.elems):
                            go(x, path + (('t', j),))
                elif isinstance(lf, TupV):
                    for j, x in enumerate(lf.items):
                        go(x, path + (('i', j),))
                elif isinstance(lf, (TData,)):
                    for j, x in enumerate(lf.elems):
                        go(x, path + (('e', j),))
                elif isinstance(lf, LV):
                    for j, x in enumerate(lf.items):
                        go(x, path + (('i', j),))
        go(pv, ())
        return out

    def phi_atoms_of(self, pv, extra):
        s = set(self.phi_names(pv, extra))
        for lf in [pv]:
            for a in all_atoms_deep(lf, extra):
                if a.tag in ('phi', 'phib', 'phik'):
                    s.add(a)
        return s

    def comp_of(self, v, path, st):
        """Component of value v along path (tensor element etc.)."""
        if path is None:
            return None
        for kind, j in path:
            v2 = None
            if kind == 't':
                def f(x):
                    if isinstance(x, Ten):
                        d = st.heap.get((x.addr, 'c'))
                        if isinstance(d, TData) and j < len(x.map):
                            return det(d.elems[x.map[j]]) if x.det else d.elems[x.map[j]]
                    return UNDEF
                v = lift(f, v)
            elif kind == 'i':
                v = lift(lambda x: x.items[j] if isinstance(x, (TupV, LV)) and j < len(x.items) else UNDEF, v)
            elif kind == 'e':
                v = lift(lambda x: x.elems[j] if isinstance(x, TData) else UNDEF, v)
        if v is UNDEF:
            return None
        return v

    def mentions(self, v, st, atoms, depth=0):
        """Does value v (through tensor data and lists) mention one of the atoms?"""
        for lf in all_leaves(v):
            if isinstance(lf, R):
                if all_atoms(lf) & atoms:
                    return True
            elif isinstance(lf, Ten):
                d = st.heap.get((lf.addr, 'c'))
                if d is not None and depth < 8 and self.mentions(d, st, atoms, depth + 1):
                    return True
            elif isinstance(lf, TData):
                for x in lf.elems:
                    if all_atoms(x) & atoms:
                        return True
            elif isinstance(lf, (TupV, LV)):
                if any(self.mentions(x, st, atoms, depth + 1) for x in lf.items):
                    return True
            elif isinstance(lf, SymL):
                if self.mentions(lf.body, st, atoms, depth + 1):
                    return True
            elif isinstance(lf, Ref):
                c = st.heap.get((lf.addr, 'c'))
                if c is not None and depth < 8 and self.mentions(c, st, atoms, depth + 1):
                    return True
            elif isinstance(lf, PhiL):
                return True
        if isinstance(v, DD):
            cs = set()
            stack = [v]
            seen = set()
            while stack:
                x = stack.pop()
                if isinstance(x, DD) and id(x) not in seen:
                    seen.add(id(x))
                    if all_atoms(x.c) & atoms:
                        return True
                    stack += [x.hi, x.lo]
        return False

    def classify(self, k, pv, extra, init, base, back, s, ix, phi_atoms):
        atoms = set(phi_atoms)
        if not self.mentions(back, s, atoms) and not any(isinstance(l, AppL) for l in all_leaves(back)):
            return ('last',)
        if isinstance(pv, R) and isinstance(back, (R, DD)):
            d = sub(lift(num, back), pv)
            if not self.mentions(d, s, atoms):
                return ('sum', d)
        if isinstance(pv, TData) and isinstance(back, TData):
            ds = []
            for x, y in zip(pv.elems, back.elems):
                if x is y or x == y:
                    ds.append(None)
                    continue
                if not isinstance(x, R):
                    break
                d = sub(lift(num, y), x)
                if self.mentions(d, s, atoms):
                    break
                ds.append(d)
            else:
                return ('sum', ds)
        if isinstance(pv, Ten) and isinstance(back, (Ten, DD)) and all(isinstance(l, Ten) and l.shape == pv.shape for l in all_leaves(back)):
            pd = extra[(pv.addr, 'c')].elems
            bd = self.lib.elems(self, back, s)
            ds = [sub(x, y) for x, y in zip(bd, pd)]
            if not any(self.mentions(d, s, atoms) for d in ds):
                return ('tsum', ds, pv)
        # guarded replacement
        if isinstance(back, DD):
            plv = all_leaves(pv)

            def isphi(x):
                return any(x is p or (type(x) is type(p) and x == p) for p in plv)
            G = lift(lambda x: not isphi(x), back)
            e = lift(lambda x: UNDEF if isphi(x) else x, back)
            if G is not True and G is not False and not self.mentions_vals(e, s, atoms):
                e = restrict_vals(e)
                return ('select', G, e)
        if isinstance(pv, PhiL):
            r = self.classify_append(pv, init, back, s, base, ix, atoms)
            if r:
                return r
        return ('havoc',)

    def mentions_vals(self, e, s, atoms):
        """Leaves only (conditions may mention the unknowns)."""
        return any(self.mentions(l, s, atoms) for l in all_leaves(e))

    def classify_append(self, pv, init, back, s, base, ix, atoms):
        if not isinstance(back, AppL) or back.base != pv:
            return None
        if len(back.items) != 1:
            return None
        x = back.items[0]
        if self.mentions(x, s, atoms):
            return None
        if not (isinstance(init, LV) and not init.items):
            return None

        def fin(n, s, final):
            return SymL(n, ix, x)
        return ('append', fin)

    def sum_val(self, kind, init, ix, n, base, s, final):
        d = kind[1]
        if isinstance(d, list):
            return TData([x if dd is None else add(x, sum_over(ix, n, dd)) for x, dd in zip(init.elems, d)])
        return add(lift(num, init), sum_over(ix, n, d))

    # ---- counted while loops
    def try_counted(self, s, st, fr):
        """while i < n with i stepping by one: the same as a for loop over range."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))
                and isinstance(t.left, ast.Name)):
            return False
        name = t.left.id
        k = (fr, name)
        init = st.heap.get(k)
        if not isinstance(init, R) or not init.is_const():
            return False
        bound = self.ev(t.comparators[0], st.clone(), fr)
        if not isinstance(bound, R):
            return False
        # the counter must be changed by exactly one top-level "i += 1"
        incs = [x for x in ast.walk(s) if isinstance(x, (ast.Assign, ast.AugAssign)) and any(
            isinstance(y, ast.Name) and y.id == name for tt in (x.targets if isinstance(x, ast.Assign) else [x.target])
            for y in ast.walk(tt))]
        if len(incs) != 1 or incs[0] not in s.body:
            return False
        n = sub(bound, init)

        def bind(v, x):
            x.heap[k] = add(init, v)
        inc = incs[0]

        def body(x):
            before = x.heap[k]
            self.exec_block(s.body, x, fr)
            if not x.dead:
                if not (isinstance(x.heap.get(k), R) and x.heap[k] == add(before, ONE)):
                    raise Imprecise('counter is not stepped by one')
        seq = SeqV(n, lambda kk, x: kk, 'while')
        save = st.clone()
        try:
            self.sym_for(seq, st, bind, body, s, (lambda x: self.exec_block(s.orelse, x, fr)) if s.orelse else None)
        except Imprecise:
            st.become(save)
            return False
        return True

    # ---- general loops
    def tie(self, phis, base, back):
        """Two loop variables whose difference (or sum) is the same number on entry and after every
        iteration: write the younger one in terms of the other. True if one was found."""
        if back.dead:
            return False
        heads = [k for k, (pv, extra) in phis.items() if isinstance(pv, R) and not extra and
                 any(pv == R.atom(a) and a.tag == 'phi' for a in pv.atoms())]
        own = {a for k in heads for a in phis[k][0].atoms()}
        for x in sorted(heads, key=lambda k: str(k[0]).zfill(9), reverse=True):
            for p in heads:
                if p == x:
                    continue
                v = [h.get(k) for h in (base.heap, back.heap) for k in (x, p)]
                if not all(isinstance(lf, R) for q in v for lf in all_leaves(q)):
                    continue
                for op in (sub, add):
                    k0, k1 = op(v[0], v[1]), op(v[2], v[3])
                    if isinstance(k0, R) and not (all_atoms(k0) & own) and identical(k0, k1):
                        ph = phis[p][0]
                        phis[x] = (add(ph, k0) if op is sub else sub(k0, ph), {})
                        return True
        return False

    def while_fix(self, s, st, fr, breaks0):
        self.uid += 1
        uid = self.uid
        base = st.clone()
        phis = {}
        oracle, self.oracle = self.oracle, None
        nraised0 = len(self.raised)
        nrets = len(self.rets[-1]) if self.rets else 0
        nlogs = [len(l) for l in self.logs]
        for rnd in range(14):
            del self.raised[nraised0:]
            for l, n in zip(self.logs, nlogs):
                del l[n:]             # what hooks recorded of an earlier round
            if self.rets:
                del self.rets[-1][nrets:]
            h = base.clone()
            for k, (pv, extra) in phis.items():
                for ek, evv in extra.items():
                    h.heap[ek] = evv
                h.heap[k] = pv
            head = dict(h.heap)
            mark = self.counter
            breaks, conts = list(breaks0), []
            g = self.truth(self.ev(s.test, h, fr), h)
            g = restrict(g, h.guard)
            out = h.clone(b_and(h.guard, b_not(g)))
            if g is True:
                out.dead = True
            b = h.clone(b_and(h.guard, g))
            self.loops.append((breaks, conts))
            if g is not False:
                self.exec_block(s.body, b, fr)
            else:
                b.dead = True
            self.loops.pop()
            self.join_conts(conts, b)
            changed = self.changed_keys(head, b, mark) if not b.dead else []
            new = [k for k in changed if k not in phis]
            if not new:
                if self.tie(phis, base, b):
                    continue
                break
            for k in new:
                init = base.heap.get(k, UNDEF)
                ps = State()
                pv = self.phi_for(k, b, init, base.heap, uid, ps)
                phis[k] = (pv, ps.heap)
        else:
            self.imprecise('loop analysis does not settle')
        self.oracle = oracle
        self.loop_info.append({'uid': uid, 'line': s.lineno, 'func': self.where[-1].qual if self.where else '',
                               'phis': phis, 'back': None if b.dead else b, 'base': base, 'head': head})
        if oracle is not None:
            # the last iteration along one path; a path that comes back to the head is covered by the head state
            del self.raised[nraised0:]
            if self.rets:
                del self.rets[-1][nrets:]
            h = base.clone()
            for k, (pv, extra) in phis.items():
                for ek, evv in extra.items():
                    h.heap[ek] = evv
                h.heap[k] = pv
            g = self.truth(self.ev(s.test, h, fr), h)
            if g is False:
                if s.orelse:
                    self.exec_block(s.orelse, h, fr)
                st.become(h)
                return
            if g is not True:
                self.imprecise('undecided loop condition')
            breaks, conts = list(breaks0), []
            self.loops.append((breaks, conts))
            self.exec_block(s.body, h, fr)
            self.loops.pop()
            if not h.dead or conts:
                raise PathDone()
            if not breaks:
                st.become(h)
                st.dead = True
                return
            if len(breaks) > 1:
                self.imprecise('several exits on one path')
            m = breaks[0].st
            m.dead = False
            st.become(m)
            return
        outs = list(breaks)
        if not out.dead:
            if s.orelse:
                self.exec_block(s.orelse, out, fr)
            outs.append(Exit('end', out.guard, None, out))
        outs = [o for o in outs if not o.st.dead and o.guard is not False]
        if not outs:
            st.become(out)
            st.dead = True
            return
        gs = [o.guard for o in outs]
        for o in outs:
            o.guard = restrict(o.guard, base.guard)
        _, m = self.fold_exits(outs)
        gg = gs[0]
        for x in gs[1:]:
            gg = b_or(gg, x)
        m.guard = gg
        m.dead = False
        st.become(m)

    loop_info = []

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            i = self.ev_index(t.slice, st, fr)
            self.setitem(o, i, v, st)
        else:
            self.imprecise('assignment target %s' % type(t).__name__)

    def unpack(self, elts, v, st, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, DD):
            ls = all_leaves(v)
            parts = [self.seq_items(l, st) for l in ls]
            if len({len(p) for p in parts}) == 1:
                n = len(parts[0])
                m = {id(l): p for l, p in zip(ls, parts)}

                def pick(x, j):
                    for l, p in zip(ls, parts):
                        if x is l or (type(x) is type(l) and x == l):
                            return p[j]
                items = [self.lift_any(lambda x, j=j: pick(x, j), v) for j in range(n)]
            else:
                self.imprecise('unpacking of values of different lengths')
        else:
            items = self.seq_items(v, st)
        if star:
            i = star[0]
            post = len(elts) - i - 1
            mid = items[i:len(items) - post]
            new = list(items[:i]) + [self.new_list(st, mid)] + list(items[len(items) - post:])
            for e, x in zip(elts, new):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
            return
        if len(items) != len(elts):
            self.imprecise('unpacking %d values into %d targets' % (len(items), len(elts)))
        for e, x in zip(elts, items):
            self.assign(e, x, st, fr)

    def lift_any(self, f, v):
        """lift where the leaves may be aggregates (merged componentwise)."""
        if isinstance(v, DD):
            return mergeval(b_atom(v.c), self.lift_any(f, v.hi), self.lift_any(f, v.lo))
        return f(v)

    def seq_items(self, v, st):
        if isinstance(v, DD) and all(isinstance(l, (Ref, TupV)) for l in all_leaves(v)):
            its = {l: tuple(self.seq_items(l, st)) for l in all_leaves(v)}
            lens = {len(x) for x in its.values()}
            if len(lens) == 1:
                return [self.lift_any(lambda l, j=j: its[l][j], v) for j in range(lens.pop())]
            self.imprecise('list of varying length used as a whole')
        it = self.items_of(v, st)
        if isinstance(it, SeqV):
            if not it.n.is_const():
                self.imprecise('sequence of unknown length used as a whole')
            it = self.force_seq(it, st)
        if isinstance(it, DD):
            lens = {len(l.items) for l in all_leaves(it) if isinstance(l, LV)}
            if len(lens) == 1 and all(isinstance(l, LV) for l in all_leaves(it)):
                n = lens.pop()
                return [lift(lambda l, j=j: l.items[j], it) for j in range(n)]
            self.imprecise('list of varying length used as a whole')
        return list(it)

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name, st):
        for c in cls.mro():
            k = (c.addr, name)
            if k in st.heap:
                return st.heap[k], c
        return None

    def getattr(self, o, name, st, default=None, has_default=False):
        if isinstance(o, TupV) and o.names:
            if name in o.names:
                return o.items[o.names.index(name)]
            if name == '_fields':
                return TupV(o.names)
            if name == '_replace':
                return PyFn(lambda ip, s, args, kw: TupV([kw.get(k, v) for k, v in zip(o.names, o.items)], o.names))
        if isinstance(o, DD):
            ls = all_leaves(o)
            if all(isinstance(l, Obj) and (l.addr, name) in st.heap for l in ls):
                return self.lift_any(lambda l: st.heap[(l.addr, name)], o)
            return self.fork(o, st, lambda l, s: self.getattr(l, name, s, default, has_default))
        if isinstance(o, Obj):
            k = (o.addr, name)
            r = self.class_attr(o.cls, name, st) if o.cls else None
            if r is not None and isinstance(r[0], Func) and r[0].kind == 'property':
                return self.call_func(r[0], [o], {}, st)
            if k in st.heap:
                v = st.heap[k]
                if v is UNDEF:
                    if has_default:
                        return default
                    self.imprecise('attribute %s may be missing' % name)
                return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                a = self.new()
                st.heap[(a, 'c')] = DV([(kk[1], v) for kk, v in st.heap.items() if kk[0] == o.addr])
                return Ref('dict', a)
            if r is not None:
                v = r[0]
                if isinstance(v, Func):
                    if v.kind == 'staticmethod':
                        return v
                    if v.kind == 'classmethod':
                        return Bound(v, o.cls)
                    return Bound(v, o)
                return v
            m = self.lib.obj_attr(self, o, name, st)
            if m is not None:
                return m
            if has_default:
                return default
            self.missing_attr(o, name, st)
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            r = self.class_attr(o, name, st)
            if r is not None:
                if isinstance(r[0], Func) and r[0].kind == 'classmethod':
                    return Bound(r[0], o)
                return r[0]
            for p in o.ext_bases():
                return Ext(p + '.' + name)
            if name == '__init__':
                return Builtin('object.__init__')
            if has_default:
                return default
            self.missing_attr(o, name, st)
        if isinstance(o, SuperV):
            mro = (o.self.cls if isinstance(o.self, Obj) else o.self).mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                k = (c.addr, name)
                if k in st.heap:
                    v = st.heap[k]
                    if isinstance(v, Func) and v.kind == 'property':
                        return self.call_func(v, [o.self], {}, st)
                    if isinstance(v, Func) and v.kind != 'staticmethod':
                        return Bound(v, o.self)
                    return v
            if name in ('__init__', '__init_subclass__', '__setattr__'):
                return Builtin('object.' + name, o.self)
            self.missing_attr(o, name, st)
        if isinstance(o, ModuleV):
            k = (o.frame, name)
            if k in st.heap:
                return st.heap[k]
            sub_ = self.load(o.name + '.' + name, st) if self.mod_file(o.name + '.' + name) else None
            if sub_ is not None:
                return sub_
            if has_default:
                return default
            self.missing_attr(o, name, st)
        if isinstance(o, Ext):
            c = self.lib.CONSTANTS.get(o.path + '.' + name)
            if c is not None:
                return c
            return Ext(o.path + '.' + name)
        if isinstance(o, Ten):
            v = self.lib.ten_attr(self, o, name, st)
            if v is UNDEF and has_default:
                return default
            if v is UNDEF:
                self.missing_attr(o, name, st)
            return v
        if isinstance(o, Opaque):
            return Opaque((o.name, '.', name))
        if isinstance(o, (Ref, str, TupV, SeqV)):
            return Builtin(name, o)
        if isinstance(o, R):
            if name in ('item',):
                return Builtin(name, o)
            return Builtin(name, o)
        if isinstance(o, Func) and name in ('__name__', '__qualname__'):
            return o.name
        if isinstance(o, (Func, Bound)):
            return Opaque(('fnattr', name))
        if has_default:
            return default
        self.missing_attr(o, name, st)

    def missing_attr(self, o, name, st=None):
        own = isinstance(o, (ModuleV, SuperV)) or \
            (isinstance(o, Obj) and o.cls is not None and not o.cls.ext_bases() and not hasattr(o, 'ext')) or \
            (isinstance(o, ClassV) and not o.ext_bases())
        if own and st is not None:
            nm = o.cls.name if isinstance(o, Obj) else getattr(o, 'name', 'super()')
            self.fail('AttributeError', '%s has no attribute %s' % (nm, name), st)
        self.imprecise('attribute %s of %r does not exist' % (name, o))

    def fail(self, kind, what, st=None):
        """The operation under analysis raises on every input that reaches it."""
        if self.tries:
            self.imprecise('%s: %s inside a try block' % (kind, what))
        r = Raised(True if st is None else st.guard, '%s: %s' % (kind, what), self.loc(), 'implicit')
        r.func = self.where[-1].qual if self.where else '?'
        self.raised.append(r)
        raise AbsRaise()

    def setattr(self, o, name, v, st):
        if isinstance(o, DD):
            self.fork(o, st, lambda l, s: self.setattr(l, name, v, s))
            return
        if isinstance(o, Obj):
            r = self.class_attr(o.cls, name, st) if o.cls else None
            if r is not None and isinstance(r[0], Func) and r[0].kind == 'property':
                f = getattr(r[0], 'setter', None)
                if f is None:
                    self.imprecise('property %s has no setter' % name)
                self.call_func(f, [o, v], {}, st)
                return
            if r is None or (o.addr, name) in st.heap or True:
                sa = self.class_attr(o.cls, '__setattr__', st) if o.cls else None
                if sa is not None:
                    self.call_func(sa[0], [o, name, v], {}, st)
                    return
            st.heap[(o.addr, name)] = v
            self.wsite[(o.addr, name)] = self.here()
        elif isinstance(o, ClassV):
            st.heap[(o.addr, name)] = v
            self.wsite[(o.addr, name)] = self.here()
        elif isinstance(o, ModuleV):
            st.heap[(o.frame, name)] = v
            self.wsite[(o.frame, name)] = self.here()
        elif isinstance(o, Ten):
            if name == 'data':
                self.lib.t_write(self, o, self.lib.detv(self, v, st), st)
            elif name in ('requires_grad', 'grad'):
                pass
            else:
                self.imprecise('attribute %s of a tensor is set' % name)
        elif isinstance(o, (Opaque, Ext)):
            pass
        elif isinstance(o, (Func, Bound)):
            pass
        else:
            self.imprecise('cannot set attribute %s of %r' % (name, o))

    # ------------------------------------------------------------ subscripts
    def ev_index(self, e, st, fr):
        if isinstance(e, ast.Slice):
            return SliceV(*[None if x is None else self.ev(x, st, fr) for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple):
            return TupV([self.ev_index(x, st, fr) for x in e.elts])
        return self.ev(e, st, fr)

    def getitem(self, o, i, st):
        if isinstance(o, DD):
            return self.fork(o, st, lambda l, s: self.getitem(l, i, s))
        if isinstance(o, Ten):
            if isinstance(i, DD):
                return self.fork(i, st, lambda j, s: self.getitem(o, j, s))
            return self.lib.t_index(self, o, i, st)
        if isinstance(o, Ref):
            c = self.content(o, st)
            if isinstance(c, DD):
                return self.fork(c, st, lambda l, s: self.get_content(o, l, i, s))
            return self.get_content(o, c, i, st)
        if isinstance(o, TupV):
            return self.get_content(o, LV(o.items), i, st)
        if isinstance(o, SeqV):
            if isinstance(i, R):
                return o.get(i, st)
            if o.n.is_const():
                return self.get_content(self.new_list(st, self.force_seq(o, st)), LV(self.force_seq(o, st)), i, st)
        if isinstance(o, str) and isinstance(i, R) and i.is_const():
            return o[int(i.const())]
        if isinstance(o, str) and isinstance(i, SliceV):
            f = lambda x: None if x is None else int(x.const())
            return o[slice(f(i.a), f(i.b), f(i.s))]
        if isinstance(o, Opaque):
            return Opaque((o.name, '[]', keyname(i)))
        if isinstance(o, Obj):
            m = self.getattr(o, '__getitem__', st, None, True)
            if m is not None:
                return self.call(m, [i], {}, st)
        if isinstance(o, (Ext, ClassV)):
            return o
        self.imprecise('cannot index %r' % (o,))

    def get_content(self, o, c, i, st):
        if isinstance(i, DD) and isinstance(c, LV):
            ls = all_leaves(i)
            if all(isinstance(l, R) and l.is_const() for l in ls) and all(-len(c.items) <= int(l.const()) < len(c.items) for l in ls):
                return self.lift_any(lambda j: c.items[int(j.const())], i)
        if isinstance(i, DD):
            return self.fork(i, st, lambda j, s: self.get_content(o, c, j, s))
        if isinstance(i, bool):
            i = num(i)
        if isinstance(i, Ten):
            i = self.lib.elems(self, i, st)[0]
        if isinstance(c, LV):
            n = len(c.items)
            if isinstance(i, SliceV):
                f = lambda x: None if x is None else self.as_int(x)
                it = c.items[slice(f(i.a), f(i.b), f(i.s))]
                return TupV(it) if isinstance(o, TupV) else self.new_list(st, it)
            if isinstance(i, R) and i.is_const():
                j = int(i.const())
                if not -n <= j < n:
                    self.fail('IndexError', 'list index out of range', st)
                return c.items[j]
            if isinstance(i, R):
                # symbolic index into a concrete list
                v = None
                for j in range(n - 1, -1, -1):
                    v = c.items[j] if j == n - 1 else mergeval(c_eq(i, R.c(j)), c.items[j], v)
                return v
            self.imprecise('list index %r' % (i,))
        if isinstance(c, SymL):
            if isinstance(i, R):
                k = i
                if k.is_const() and k.const() < 0:
                    k = add(c.n, k)
                return self.inst(c.body, c.ix, k, st)
            if isinstance(i, SliceV) and i.s is None:
                a = i.a or ZERO
                b = i.b if i.b is not None else c.n
                if isinstance(a, R) and a.is_const() and a.const() >= 0 and i.b is None:
                    m = sub(c.n, a)
                    self.uid += 1
                    ix2 = nat(Atom('ix', self.uid))
                    return self.sym_new(st, SymL(m, ix2, self.inst(c.body, c.ix, add(R.atom(ix2), a), st)))
                if isinstance(a, R) and a.is_const() and isinstance(b, R) and b.is_const() and 0 <= a.const() and b.const() >= 0:
                    return self.new_list(st, [self.inst(c.body, c.ix, R.c(j), st) for j in range(int(a.const()), int(b.const()))])
                if a.is_zero():
                    if isinstance(b, R) and b.is_const() and b.const() < 0:
                        b = add(c.n, b)
                    return self.sym_new(st, SymL(b, c.ix, c.body))
            self.imprecise('slice of a list of unknown length')
        if isinstance(c, DV):
            r = c.get(i, UNDEF)
            if r is UNDEF:
                if isinstance(i, (str, R)) and all(isinstance(k, (str, R)) for k, _ in c.items) and not (isinstance(i, R) and not i.is_const()):
                    self.fail('KeyError', 'no key %r' % (i,), st)
                self.imprecise('dictionary key %r' % (i,))
            return r
        if isinstance(c, PhiL):
            return Opaque(('item of', c))
        self.imprecise('cannot index %r' % (c,))

    def sym_new(self, st, c):
        a = self.new()
        st.heap[(a, 'c')] = c
        return Ref('list', a)

    def as_int(self, x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, R) and x.is_const():
            return int(x.const())
        if isinstance(x, int):
            return x
        self.imprecise('integer with a known value expected, got %r' % (x,))

    def setitem(self, o, i, v, st):
        if isinstance(o, DD):
            self.fork(o, st, lambda l, s: self.setitem(l, i, v, s))
            return
        if isinstance(o, Ten):
            if isinstance(i, DD):
                self.fork(i, st, lambda j, s: self.setitem(o, j, v, s))
                return
            self.lib.t_setitem(self, o, i, v, st)
            return
        if isinstance(o, Ref):
            c = self.content(o, st)
            if isinstance(c, DD):
                self.fork(c, st, lambda l, s: self.set_content(o, l, i, v, s))
            else:
                self.set_content(o, c, i, v, st)
            return
        if isinstance(o, Opaque):
            return
        if isinstance(o, Obj):
            m = self.getattr(o, '__setitem__', st, None, True)
            if m is not None:
                self.call(m, [i, v], {}, st)
                return
        self.imprecise('cannot assign into %r' % (o,))

    def set_content(self, o, c, i, v, st):
        key = (o.addr, 'c')
        self.wsite[key] = self.here()
        if isinstance(i, DD):
            self.fork(i, st, lambda j, s: self.set_content(o, c, j, v, s))
            return
        if isinstance(i, Ten) and isinstance(c, LV):
            i = self.lib.elems(self, i, st)[0]
        if isinstance(c, LV):
            l = list(c.items)
            if isinstance(i, SliceV):
                f = lambda x: None if x is None else self.as_int(x)
                l[slice(f(i.a), f(i.b), f(i.s))] = self.seq_items(v, st)
            elif isinstance(i, R) and i.is_const():
                j = int(i.const())
                if not -len(l) <= j < len(l):
                    self.fail('IndexError', 'list index out of range', st)
                l[j] = v
            elif isinstance(i, R):
                l = [mergeval(c_eq(i, R.c(j)), v, x) for j, x in enumerate(l)]
            else:
                self.imprecise('list index %r' % (i,))
            st.heap[key] = LV(l)
        elif isinstance(c, DV):
            if isinstance(i, (str, R, TupV, Obj, bool)) or i is None or isinstance(i, (ClassV, Func)):
                st.heap[key] = c.set(i, v)
            else:
                self.imprecise('dictionary key %r' % (i,))
        else:
            self.imprecise('assignment into a list of unknown length')

    # ------------------------------------------------------------ truth, comparison, arithmetic
    oracle = None

    def truth(self, v, st):
        r = self.truth_(v, st)
        if self.oracle is not None and isinstance(r, DD):
            r = self.oracle.decide(r)
        return r

    def truth_(self, v, st):
        if isinstance(v, bool):
            return v
        if isinstance(v, DD):
            if all(isinstance(l, bool) for l in all_leaves(v)):
                return v
            return lift(lambda x: self.truth_(x, st), v)
        if v is None:
            return False
        if isinstance(v, R):
            return b_not(c_eq0(v))
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, Ten):
            e = self.lib.elems(self, v, st)
            if len(e) != 1:
                self.fail('RuntimeError', 'truth value of a tensor with %d elements' % len(e), st)
            return self.truth_(e[0], st)
        if isinstance(v, Ref):
            c = self.content(v, st)
            return lift(lambda x: self.truth_content(x), c)
        if isinstance(v, TupV):
            return bool(v.items)
        if isinstance(v, Obj):
            for nm in ('__bool__', '__len__'):
                r = self.class_attr(v.cls, nm, st) if v.cls else None
                if r is not None:
                    return self.truth(self.call_func(r[0], [v], {}, st), st)
            return True
        if isinstance(v, Opaque):
            return b_atom(Atom('opq', v.name))
        if isinstance(v, SeqV):
            return c_lt(ZERO, v.n)
        return True

    def truth_content(self, c):
        if isinstance(c, LV):
            return bool(c.items)
        if isinstance(c, SymL):
            return c_lt(ZERO, c.n)
        if isinstance(c, DV):
            return bool(c.items)
        return b_atom(Atom('opq', ('nonempty', c)))

    def compare(self, op, a, b, st):
        if op in ('Is', 'IsNot'):
            r = lift(lambda x, y: self.ident(x, y), a, b)
            return r if op == 'Is' else b_not(r)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a, st)
            return r if op == 'In' else b_not(r)
        for x in (a, b):
            if any(isinstance(l, Ten) for l in all_leaves(x)):
                return self.lib.t_compare(self, op, a, b, st)

        def f(x, y):
            x, y = num(x) if isinstance(y, R) else x, num(y) if isinstance(x, R) else y
            if isinstance(x, R) and isinstance(y, R):
                return cmp_scalar(op, x, y)
            if isinstance(x, bool) and isinstance(y, bool):
                return {'Eq': x == y, 'NotEq': x != y, 'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
            if isinstance(x, Opaque) or isinstance(y, Opaque):
                return b_atom(Atom('opq', ('cmp', op, keyname(x), keyname(y))))
            if op in ('Eq', 'NotEq'):
                r = self.equal(x, y, st)
                return r if op == 'Eq' else b_not(r)
            if isinstance(x, str) and isinstance(y, str):
                return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
            if isinstance(x, (TupV, Ref)) and isinstance(y, (TupV, Ref)):
                xs, ys = self.seq_items(x, st), self.seq_items(y, st)
                if len(xs) == len(ys) and xs:
                    lt = cmp0 = None
                    acc = op in ('LtE', 'GtE')
                    for p, q in reversed(list(zip(xs, ys))):
                        strict = self.compare('Lt' if op in ('Lt', 'LtE') else 'Gt', p, q, st)
                        acc = b_or(strict, b_and(self.compare('Eq', p, q, st), acc))
                    return acc
            self.imprecise('comparison %s of %r and %r' % (op, x, y))
        return lift(f, a, b)

    def ident(self, x, y):
        if x is y:
            return True
        if x is None or y is None:
            return False
        if type(x) is not type(y):
            return False
        if isinstance(x, R):
            if x.is_const() and y.is_const():
                return x == y
            return b_atom(Atom('opq', ('is', x, y))) if x != y else True
        return x == y

    def equal(self, x, y, st):
        if x is y:
            return True
        if isinstance(x, (TupV, Ref)) and isinstance(y, (TupV, Ref)):
            if isinstance(x, Ref) and x.kind == 'dict':
                return x == y
            xs, ys = self.seq_items(x, st), self.seq_items(y, st)
            if len(xs) != len(ys):
                return False
            g = True
            for p, q in zip(xs, ys):
                g = b_and(g, self.truth(self.compare('Eq', p, q, st), st))
            return g
        if isinstance(x, Obj) and x.cls:
            r = self.class_attr(x.cls, '__eq__', st)
            if r is not None:
                return self.truth(self.call_func(r[0], [x, y], {}, st), st)
        if type(x) is not type(y):
            return False
        return x == y

    def contains(self, c, x, st):
        if isinstance(c, DD):
            return self.fork(c, st, lambda l, s: self.contains(l, x, s))
        if isinstance(c, Ref):
            k = self.content(c, st)
            if isinstance(k, DD):
                return lift(lambda l: self.contains_content(l, x, st), k)
            return self.contains_content(k, x, st)
        if isinstance(c, TupV):
            return self.contains_content(LV(c.items), x, st)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, SeqV) and c.what == 'range' and isinstance(x, R):
            if c.n.is_const():
                return self.contains_content(LV(self.force_seq(c, st)), x, st)
        if isinstance(c, Obj):
            m = self.getattr(c, '__contains__', st, None, True)
            if m is not None:
                return self.truth(self.call(m, [x], {}, st), st)
        return b_atom(Atom('opq', ('in', keyname(x), keyname(c))))

    def contains_content(self, c, x, st):
        if isinstance(c, LV):
            g = False
            for y in c.items:
                if any(isinstance(l, Ten) for l in all_leaves(x)) or any(isinstance(l, Ten) for l in all_leaves(y)):
                    e = lift(lambda p, q: True if p == q else (b_atom(Atom('opq', ('same', keyname(p, st), keyname(q, st))))
                             if isinstance(p, Ten) and isinstance(q, Ten) else False), x, y)
                else:
                    e = self.compare('Eq', x, y, st)
                g = b_or(g, e)
            return g
        if isinstance(c, DV):
            return any(k == x and type(k) is type(x) for k, _ in c.items)
        self.uid += 1
        self.members[self.uid] = (self.lib.elems(self, x, st) if any(isinstance(l, Ten) for l in all_leaves(x)) else x, c)
        return b_atom(Atom('opq', ('in', self.uid)))

    def binop(self, op, a, b, st):
        if isinstance(a, self.lib.Masked) or isinstance(b, self.lib.Masked):
            return self.lib.masked_binop(self, op, a, b, st)
        la, lb = all_leaves(a), all_leaves(b)
        if any(l is None for l in la) or any(l is None for l in lb):
            if a is None or b is None:
                self.fail('TypeError', 'operand is None', st)
            if any(l is None for l in la):
                return self.fork(a, st, lambda l, s: self.binop(op, l, b, s))
            return self.fork(b, st, lambda l, s: self.binop(op, a, l, s))
        if any(isinstance(l, Ten) for l in la) or any(isinstance(l, Ten) for l in lb):
            return self.lib.t_binop(self, op, a, b, st)

        def f(x, y):
            if is_num(x) and is_num(y):
                return arith(self, op, num(x), num(y), isinstance(x, bool) and isinstance(y, bool))
            if isinstance(x, str) and isinstance(y, str) and op == 'Add':
                return x + y
            if isinstance(x, str) and op == 'Mod':
                ys = [plain(v) for v in (y.items if isinstance(y, TupV) else (y,))]
                if None not in ys:
                    return x % (tuple(ys) if isinstance(y, TupV) else ys[0])
                return Opaque(('fmt', x, keyname(y, st)))
            if isinstance(x, str) and op == 'Mult':
                return x * int(y.const())
            if isinstance(x, (str, Opaque)) or isinstance(y, (str, Opaque)):
                return Opaque((op, keyname(x, st), keyname(y, st)))
            if isinstance(x, TupV) and isinstance(y, TupV) and op == 'Add':
                return TupV(x.items + y.items)
            if isinstance(x, Ref) and isinstance(y, Ref) and op == 'Add':
                cx, cy = self.content(x, st), self.content(y, st)
                a_ = self.new()
                st.heap[(a_, 'c')] = lift(lambda p, q: self.cat_content(p, q, st), cx, cy)
                return Ref('list', a_)
            if isinstance(x, Ref) and isinstance(y, R) and op == 'Mult':
                return self.new_list(st, self.seq_items(x, st) * self.as_int(y))
            if isinstance(y, Ref) and isinstance(x, R) and op == 'Mult':
                return self.new_list(st, self.seq_items(y, st) * self.as_int(x))
            if isinstance(x, TupV) and isinstance(y, R) and op == 'Mult':
                return TupV(x.items * self.as_int(y))
            if isinstance(x, Ref) and x.kind == 'set' and isinstance(y, Ref) and op in ('BitOr', 'BitAnd', 'Sub'):
                xs, ys = self.seq_items(x, st), self.seq_items(y, st)
                if op == 'BitOr':
                    r = xs + [q for q in ys if q not in xs]
                elif op == 'BitAnd':
                    r = [q for q in xs if q in ys]
                else:
                    r = [q for q in xs if q not in ys]
                z = self.new_list(st, r)
                return Ref('set', z.addr)
            if isinstance(x, Obj) or isinstance(y, Obj):
                nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'MatMult': '__matmul__'}.get(op)
                if isinstance(x, Obj) and nm and self.class_attr(x.cls, nm, st):
                    return self.call(self.getattr(x, nm, st), [y], {}, st)
            self.imprecise('operator %s on %r and %r' % (op, x, y))
        return lift(f, a, b)

    def cat_content(self, p, q, st):
        if isinstance(p, LV) and isinstance(q, LV):
            return LV(p.items + q.items)
        if isinstance(p, LV) and not p.items:
            return q
        if isinstance(q, LV) and not q.items:
            return p
        if isinstance(p, SymL) and isinstance(q, LV) and len(q.items) == 1:
            # [p0 .. pn-1, q0]
            self.uid += 1
            ix = nat(Atom('ix', self.uid))
            last = c_eq(R.atom(ix), p.n)
            el = self.inst(p.body, p.ix, R.atom(ix), st)
            return SymL(add(p.n, ONE), ix, self.merge_elem(c_lt(R.atom(ix), p.n), el, q.items[0], st))
        if isinstance(p, (PhiL, AppL)) and isinstance(q, LV):
            if isinstance(p, AppL):
                return AppL(p.base, p.items + q.items)
            return AppL(p, q.items)
        self.imprecise('concatenation of lists of unknown length')

    def merge_elem(self, g, a, b, st):
        if isinstance(a, Ten) and isinstance(b, Ten) and a.shape == b.shape:
            xa, xb = self.lib.elems(self, a, st), self.lib.elems(self, b, st)
            return self.lib.mk(self, st, a.shape, [ite(g, x, y) for x, y in zip(xa, xb)], a.dt)
        return mergeval(g, a, b)

    def inplace(self, op, old, v, st):
        if any(isinstance(l, Ten) for l in all_leaves(old)):
            def f(l, s):
                if isinstance(l, Ten):
                    r = self.lib.t_binop(self, op, l, v, s)
                    if isinstance(r, Ten) and r.shape != l.shape:
                        self.imprecise('in-place operation changes the shape')
                    self.lib.t_write(self, l, r, s)
                    return l
                return self.binop(op, l, v, s)
            return self.fork(old, st, f)
        if any(isinstance(l, Ref) for l in all_leaves(old)):
            def f(l, s):
                if isinstance(l, Ref) and l.kind == 'list' and op == 'Add':
                    self.lib.list_extend(self, l, v, s)
                    return l
                if isinstance(l, Ref) and l.kind == 'set':
                    r = self.binop(op, l, v, s)
                    s.heap[(l.addr, 'c')] = self.content(r, s)
                    return l
                return self.binop(op, l, v, s)
            return self.fork(old, st, f)
        return self.binop(op, old, v, st)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        if st.dead:
            raise AbsRaise()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.imprecise('expression %s not modelled' % type(e).__name__)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return R.c(v)
        if v is Ellipsis:
            return ELLIPSIS
        return Opaque(('const', repr(v)))

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr)

    def e_Attribute(self, e, st, fr):
        return self.getattr(self.ev(e.value, st, fr), e.attr, st)

    def e_Subscript(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        return self.getitem(o, self.ev_index(e.slice, st, fr), st)

    def e_List(self, e, st, fr):
        return self.new_list(st, self.ev_elts(e.elts, st, fr))

    def e_Tuple(self, e, st, fr):
        return TupV(self.ev_elts(e.elts, st, fr))

    def e_Set(self, e, st, fr):
        r = self.new_list(st, self.ev_elts(e.elts, st, fr))
        return Ref('set', r.addr)

    def ev_elts(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.seq_items(self.ev(x.value, st, fr), st)
            else:
                out.append(self.ev(x, st, fr))
        return out

    def e_Dict(self, e, st, fr):
        d = DV(())
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, st, fr)
                for a, b in self.content(o, st).items:
                    d = d.set(a, b)
            else:
                kk = self.ev(k, st, fr)
                d = d.set(kk, self.ev(v, st, fr))
        a = self.new()
        st.heap[(a, 'c')] = d
        return Ref('dict', a)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, st, fr))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return Opaque(('fmt', tuple(keyname(q, st) for q in parts)))

    def e_FormattedValue(self, e, st, fr):
        # a part of an f-string
        v = plain(self.ev(e.value, st, fr))
        spec = self.ev(e.format_spec, st, fr) if e.format_spec is not None else ''
        if v is not None and isinstance(spec, str):
            v = {115: str, 114: repr, 97: ascii}.get(e.conversion, lambda q: q)(v)
            return format(v, spec)
        return Opaque(('fmt', keyname(self.ev(e.value, st, fr), st)))

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        op = type(e.op).__name__
        if op == 'Not':
            return b_not(self.truth(v, st))
        if any(isinstance(l, Ten) for l in all_leaves(v)):
            return self.lib.t_unary(self, op, v, st)
        if op == 'USub':
            return lift(lambda x: neg(num(x)) if is_num(x) else Opaque(('neg', keyname(x))), v)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            return lift(lambda x: sub(NEG1, num(x)), v)
        self.imprecise('unary operator')

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(type(e.op).__name__, a, b, st)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        return self.boolop(isand, e.values, st, fr)

    def boolop(self, isand, vals, st, fr):
        v = self.ev(vals[0], st, fr)
        if len(vals) == 1:
            return v
        if self.oracle is not None and all(simple_expr(x) for x in vals[1:]):
            g = restrict(self.oracle.restrict(self.truth_(v, st)), st.guard)
        else:
            g = restrict(self.truth(v, st), st.guard)
        if g is True:
            return self.boolop(isand, vals[1:], st, fr) if isand else v
        if g is False:
            return v if isand else self.boolop(isand, vals[1:], st, fr)
        take = g if isand else b_not(g)
        gg = b_and(st.guard, take)
        if gg is False:
            return v
        s1 = st.clone(gg)
        try:
            v1 = self.boolop(isand, vals[1:], s1, fr)
        except AbsRaise:
            s1.dead = True
            v1 = UNDEF
        s2 = st.clone(b_and(st.guard, b_not(take)))
        self.merge_into(st, take, s1, s2)
        # the value when not taken
        if all(isinstance(l, bool) for l in all_leaves(v)):
            v2 = not isand
        else:
            v2 = v
        return mergeval(take, v1, v2)

    def e_Compare(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        out = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(r, st, fr)
            c = self.compare(type(op).__name__, a, b, st)
            if len(e.ops) == 1:
                return c
            out = b_and(out, self.truth(c, st))
            a = b
        return out

    def e_IfExp(self, e, st, fr):
        g = restrict(self.truth(self.ev(e.test, st, fr), st), st.guard)
        if g is True:
            return self.ev(e.body, st, fr)
        if g is False:
            return self.ev(e.orelse, st, fr)
        box = {}

        def side(k, x, s):
            try:
                box[k] = self.ev(x, s, fr)
            except AbsRaise:
                s.dead = True
                box[k] = UNDEF
        self.branch(g, st, lambda s: side(1, e.body, s), lambda s: side(2, e.orelse, s))
        if st.dead:
            raise AbsRaise()
        if 1 not in box:
            return box[2]
        if 2 not in box:
            return box[1]
        return mergeval(g, box[1], box[2])

    def e_Lambda(self, e, st, fr):
        return self.make_func(e, st, fr, None)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Starred(self, e, st, fr):
        self.imprecise('starred expression')

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else None
        if callable(self.yields[-1]):
            self.yields[-1](v, st)
            if st.dead:
                raise AbsRaise()
            return None
        self.lib.list_append(self, self.yields[-1], v, st)
        return None

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        if callable(self.yields[-1]):
            self.imprecise('yield from in a context manager')
        self.lib.list_extend(self, self.yields[-1], v, st)
        return None

    def comp(self, e, st, fr, add_item):
        cf = self.new()
        self.parent[cf] = fr

        def gen(i, s):
            if i == len(e.generators):
                add_item(s, cf)
                return
            g = e.generators[i]
            it = self.ev(g.iter, s, cf if i else fr)

            def body(x):
                def conds(j, y):
                    if j == len(g.ifs):
                        gen(i + 1, y)
                        return
                    t = self.truth(self.ev(g.ifs[j], y, cf), y)
                    self.branch(t, y, lambda z: conds(j + 1, z), lambda z: None)
                conds(0, x)
            self.loop_over(it, s, lambda v, x: self.assign(g.target, v, x, cf), body, e, cf)
        gen(0, st)
        for k in [k for k in st.heap if k[0] == cf]:
            del st.heap[k]

    def e_ListComp(self, e, st, fr):
        out = self.new_list(st, [])
        self.comp(e, st, fr, lambda s, cf: self.lib.list_append(self, out, self.ev(e.elt, s, cf), s))
        return out

    def e_GeneratorExp(self, e, st, fr):
        return self.e_ListComp(e, st, fr)

    def e_SetComp(self, e, st, fr):
        return Ref('set', self.e_ListComp(e, st, fr).addr)

    def e_DictComp(self, e, st, fr):
        a = self.new()
        st.heap[(a, 'c')] = DV(())
        out = Ref('dict', a)
        self.comp(e, st, fr, lambda s, cf: self.setitem(out, self.ev(e.key, s, cf), self.ev(e.value, s, cf), s))
        return out

    def e_Call(self, e, st, fr):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and f not in self.frame_func:
                f = self.parent.get(f)
            fn, slf = self.frame_func[f]
            return SuperV(fn.cls, slf)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'vars') and not e.args:
            a = self.new()
            st.heap[(a, 'c')] = DV([(k[1], v) for k, v in st.heap.items() if k[0] == fr])
            return Ref('dict', a)
        if isinstance(e.func, ast.Name) and e.func.id == 'globals' and not e.args:
            mf = self.module_frame(fr)
            a = self.new()
            st.heap[(a, 'c')] = DV([(k[1], v) for k, v in st.heap.items() if k[0] == mf])
            return Ref('dict', a)
        f = self.ev(e.func, st, fr)
        args = self.ev_elts(e.args, st, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                c = self.content(v, st)
                if not isinstance(c, DV):
                    self.imprecise('** of %r' % (c,))
                for a, b in c.items:
                    kw[a] = b
            else:
                kw[k.arg] = v
        save = self.curnode
        self.curnode = e
        r = self.call(f, args, kw, st)
        self.curnode = save
        if st.dead:
            raise AbsRaise()
        return r

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, st):
        if isinstance(f, DD):
            return self.fork(f, st, lambda l, s: self.call(l, args, kw, s))
        if isinstance(f, Func):
            return self.call_func(f, args, kw, st)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kw, st)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, st)
        if isinstance(f, Builtin):
            return self.lib.call_builtin(self, f, args, kw, st)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.path, args, kw, st)
        if isinstance(f, Obj):
            if f.cls is not None:
                r = self.class_attr(f.cls, '__call__', st)
                if r is not None:
                    return self.call_func(r[0], [f] + list(args), kw, st)
            return self.lib.call_obj(self, f, args, kw, st)
        if isinstance(f, Opaque):
            return Opaque(('call', f.name, tuple(keyname(a, st) for a in args)))
        if isinstance(f, PyFn):
            return f.fn(self, st, args, kw)
        self.imprecise('call of %r' % (f,))

    def instantiate(self, cls, args, kw, st):
        o = self.new_obj(cls)
        ov = self.overrides.get(cls.name + '()')
        if ov is not None:
            return ov(self, st, cls, args, kw)
        r = self.class_attr(cls, '__init__', st)
        if r is not None:
            v = r[0]
            self.call(v, [o] + list(args), kw, st)
        elif getattr(cls, 'fields', None) is not None:
            vals = {k: v for k, v in cls.fields if v is not UNDEF}
            names = [k for k, _ in cls.fields]
            vals.update(zip(names, args))
            vals.update(kw)
            if len(args) > len(names) or set(vals) != set(names):
                self.fail('TypeError', 'arguments of %s' % cls.name, st)
            for k in names:
                self.setattr(o, k, vals[k], st)
            post = self.class_attr(cls, '__post_init__', st)
            if post is not None:
                self.call(post[0], [o], {}, st)
        elif cls.ext_bases():
            self.lib.ext_init(self, o, args, kw, st)
        if st.dead:
            raise AbsRaise()
        return o

    def bind_args(self, f, args, kw, st=None):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = TupV(extra)
        elif extra:
            self.fail('TypeError', 'too many arguments for %s' % f.qual, st)
        nd = len(f.defaults)
        for k, n in enumerate(names):
            if n in kw:
                env[n] = kw.pop(n)
            elif n not in env:
                j = k - (len(names) - nd)
                if j < 0:
                    self.fail('TypeError', 'missing argument %s of %s' % (n, f.qual), st)
                env[n] = f.defaults[j]
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            else:
                env[x.arg] = d
        if a.kwarg:
            env[a.kwarg.arg] = ('kwargs', kw)
        elif kw:
            self.fail('TypeError', 'unexpected argument %s of %s' % (sorted(kw)[0], f.qual), st)
        return env

    def call_func(self, f, args, kw, st):
        self.called[f.qual] = self.called.get(f.qual, 0) + 1
        ov = self.overrides.get(f.qual)
        if ov is not None:
            return ov(self, st, f, args, kw)
        if len(self.where) > 60:
            self.imprecise('call depth')
        if sum(1 for w in self.where if w is f) > 4:
            self.imprecise('recursion of %s' % f.qual)
        env = self.bind_args(f, args, kw, st)
        fr = self.new()
        self.parent[fr] = f.frame
        self.frame_func[fr] = (f, args[0] if args else None)
        for n, v in env.items():
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'kwargs':
                a = self.new()
                st.heap[(a, 'c')] = DV(list(v[1].items()))
                v = Ref('dict', a)
            st.heap[(fr, n)] = v
        save = (self.curmod, self.curnode)
        self.curmod = f.module
        self.where.append(f)
        ng = st.nograd
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, st, fr)
            self.rets.append([])
            sl, self.loops = self.loops, []
            entry = st.guard
            isgen = is_generator(f.node)
            if isgen:
                out = None
                if f.ctx:
                    if self.ctx_body is None:
                        self.imprecise('context manager %s used outside a with statement' % f.qual)
                    self.yields.append(self.ctx_body)
                    self.ctx_body = None
                else:
                    out = self.new_list(st, [])
                    self.yields.append(out)
            try:
                self.exec_block(f.node.body, st, fr)
            finally:
                exits = self.rets.pop()
                self.loops = sl
            if isgen:
                self.yields.pop()
            if not st.dead:
                exits.append(Exit('return', st.guard, None, st.clone()))
            if not exits:
                st.dead = True
                raise AbsRaise()
            gs = [e.guard for e in exits]
            self.rel_exits(exits, entry)
            v, s = self.fold_exits(exits)
            gg = gs[0]
            for x in gs[1:]:
                gg = b_or(gg, x)
            s.guard = gg if gg is not False else entry
            s.dead = False
            st.become(s)
            if isgen:
                v = out
            return v
        finally:
            self.where.pop()
            self.curmod, self.curnode = save
            st.nograd = ng
            if not self.keeps_frame(f):
                for k in [k for k in st.heap if k[0] == fr]:
                    del st.heap[k]

    def keeps_frame(self, f):
        hit = getattr(f, '_keeps', None)
        if hit is None:
            hit = any(isinstance(n, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp)) and n is not f.node
                      for n in ast.walk(f.node)) or is_generator(f.node)
            f._keeps = hit
        return hit


def assume_all(facts, g):
    """Add the literals every True path of g implies."""
    while isinstance(g, DD):
        if g.hi is False:
            facts = neg_facts(facts, g.c, False)
            g = g.lo
        elif g.lo is False:
            facts = neg_facts(facts, g.c, True)
            g = g.hi
        else:
            break
    return facts


def simple_expr(e):
    """No calls but the plain ones (nothing whose evaluation should wait for a decision)."""
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if nm not in ('item', 'len', 'abs', 'min', 'max', 'dot', 'norm', 'float', 'size'):
                return False
        elif isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp)):
            return False
    return True


class AppL(V):
    """Unknown contents followed by known items."""
    __slots__ = ("base", "items")

    def __init__(self, base, items):
        self.base, self.items = base, tuple(items)

    def __hash__(self):
        return hash((self.base, self.items))

    def __eq__(self, o):
        return isinstance(o, AppL) and self.base == o.base and self.items == o.items


class PyFn:
    """A callable supplied by a check (models an unknown callee)."""

    def __init__(self, fn, name='fn'):
        self.fn, self.name = fn, name

    def __repr__(self):
        return '<model %s>' % self.name


def init_of(base, k):
    return base.heap.get(k, UNDEF)


def restrict_vals(e):
    return e


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack += list(ast.iter_child_nodes(n))
    return False


def all_atoms_deep(v, extra):
    out = set()
    for lf in all_leaves(v):
        if isinstance(lf, R):
            all_atoms(lf, out)
        elif isinstance(lf, Ten):
            d = extra.get((lf.addr, 'c'))
            if d is not None:
                for x in d.elems:
                    all_atoms(x, out)
        elif isinstance(lf, TData):
            for x in lf.elems:
                all_atoms(x, out)
        elif isinstance(lf, (TupV, LV)):
            for x in lf.items:
                out |= all_atoms_deep(x, extra)
        elif isinstance(lf, Ref):
            c = extra.get((lf.addr, 'c'))
            if isinstance(c, SymL):
                out |= all_atoms_deep(c.body, extra)
                all_atoms(c.n, out)
    if isinstance(v, DD):
        all_atoms(b_conds(v), out)
    return out


def b_conds(v):
    out = []
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, DD) and id(x) not in seen:
            seen.add(id(x))
            out.append(x.c)
            stack += [x.hi, x.lo]
    return tuple(out)


def plain(v):
    """The Python value of an abstract value that is a known string, number or truth value; None if it is not one."""
    if isinstance(v, (str, bool)):
        return v
    if is_num(v):
        r = num(v)
        if r.is_const():
            c = r.const()
            return int(c) if c.denominator == 1 else float(c)
    return None


def keyname(v, st=None):
    """A hashable, comparable key of a value (for opaque results)."""
    if isinstance(v, Ten) and st is not None:
        d = st.heap.get((v.addr, 'c'))
        if isinstance(d, TData):
            return ('ten', v.shape, tuple(d.elems[i] for i in v.map))
    if isinstance(v, Ref) and st is not None:
        c = st.heap.get((v.addr, 'c'))
        if isinstance(c, LV):
            return ('list',) + tuple(keyname(x, st) for x in c.items)
    if isinstance(v, TupV):
        return ('tup',) + tuple(keyname(x, st) for x in v.items)
    if isinstance(v, Opaque):
        return v.name
    return v


def cmp_scalar(op, x, y):
    if op == 'Eq':
        return c_eq(x, y)
    if op == 'NotEq':
        return b_not(c_eq(x, y))
    if op == 'Lt':
        return c_lt(x, y)
    if op == 'LtE':
        return c_le(x, y)
    if op == 'Gt':
        return c_lt(y, x)
    return c_le(y, x)


def arith(ip, op, x, y, bools=False):
    if op == 'Add':
        return add(x, y)
    if op == 'Sub':
        return sub(x, y)
    if op == 'Mult':
        return mul(x, y)
    if op == 'Div':
        return div(x, y)
    if op == 'Pow':
        if y.is_const():
            c = y.const()
            if c == int(c):
                return power(x, int(c))
            if c == Fraction(1, 2):
                return sqrt(x)
            if c == Fraction(-1, 2):
                return div(ONE, sqrt(x))
        return lift(lambda a, b: R.atom(Atom('pow', a, b)), x, y)
    if op == 'Mod':
        if x.is_const() and y.is_const():
            c = y.const()
            return R.c(x.const() - c * (x.const() / c).__floor__())
        return mk_mod(x, y)
    if op == 'FloorDiv':
        if x.is_const() and y.is_const():
            return R.c((x.const() / y.const()).__floor__())
        return R.atom(Atom('floor', div(x, y)))
    if op in ('BitAnd', 'BitOr', 'BitXor') and x.is_const() and y.is_const():
        a, b = int(x.const()), int(y.const())
        r = {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
        return bool(r) if bools else R.c(r)
    ip.imprecise('operator %s' % op)


def mk_mod(x, y):
    def f(a, b):
        # (k mod b + c) normalisation: drop multiples of b
        if b.den == P1 and a.den == P1 and len(b.num.t) == 1:
            (m, c), = b.num.t.items()
            k = a.num.t.get(m)
            if k is not None and m != () and (k / c).denominator == 1:
                a = sub(a, mul(R.c(k / c), b))
        # inner mod of the same modulus
        at = [z for z in a.atoms() if z.tag == 'mod' and z.args[1] == b]
        if at and a.den == P1:
            z = at[0]
            co = a.num.t.get(((z.id, 1),))
            if co is not None and co.denominator == 1:
                return f(add(sub(a, mul(R.c(co), R.atom(z))), mul(R.c(co), z.args[0])), b)
        if a.is_zero():
            return ZERO
        if isinstance(a, R) and len(a.num.t) == 1 and a.den == P1:
            (m, c), = a.num.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                t = Atom.by_id[m[0][0]]
                if t.tag in ('sel', 'first') and t.args[0] == b:
                    return a
        z = Atom('mod', a, b)
        nat(z)
        return R.atom(z)
    return lift(f, x, y)


REBUILD['mod'] = lambda a, b: mk_mod(a, b)

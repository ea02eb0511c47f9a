"""The repository as syntax trees: modules, classes, functions, bindings."""
import ast
import os

from .report import REPO

TOPS = ('lcp_physics', 'demos', 'experiments')


class Fn:
    def __init__(self, mod, cls, node, outer):
        self.mod, self.cls, self.node, self.outer = mod, cls, node, outer
        self.name = node.name if not isinstance(node, ast.Lambda) else '<lambda>'
        self.qual = ('%s.' % cls.name if cls else '') + self.name

    @property
    def where(self):
        return '%s:%d (%s)' % (self.mod.rel, self.node.lineno, self.qual)

    def is_static(self):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in getattr(self.node, 'decorator_list', []))

    def is_classm(self):
        return any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in getattr(self.node, 'decorator_list', []))


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.attrs, self.bases = {}, set(), []


class Mod:
    def __init__(self, rel, name, tree, src):
        self.rel, self.name, self.tree, self.src = rel, name, tree, src
        self.fns, self.classes, self.binds = {}, {}, {}
        self.allfns = []
        self.parent = {}
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n


class Program:
    def __init__(self, tops=TOPS):
        self.mods = {}
        for top in tops:
            for d, ds, fs in os.walk(os.path.join(REPO, top)):
                ds[:] = sorted(x for x in ds if x != '__pycache__')
                for f in sorted(fs):
                    if f.endswith('.py'):
                        p = os.path.join(d, f)
                        rel = os.path.relpath(p, REPO)
                        name = rel[:-3].replace(os.sep, '.')
                        if name.endswith('.__init__'):
                            name = name[:-9]
                        with open(p) as fh:
                            src = fh.read()
                        self.mods[name] = Mod(rel, name, ast.parse(src, rel), src)
        for m in self.mods.values():
            self.index(m)
        self.byname = {}
        for m in self.mods.values():
            for f in m.allfns:
                self.byname.setdefault(f.name, []).append(f)

    def index(self, m):
        def target(t):
            if isinstance(t, ast.Name):
                yield t.id
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    yield from target(x)
            elif isinstance(t, ast.Starred):
                yield from target(t.value)

        def walk(node, cls, fn):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Fn(m, cls, n, fn)
                    m.allfns.append(f)
                    if cls is not None and fn is None:
                        cls.methods[n.name] = f
                        cls.attrs.add(n.name)
                    elif fn is None and cls is None:
                        m.fns[n.name] = f
                        m.binds[n.name] = f
                    walk(n, cls, f)
                elif isinstance(n, ast.ClassDef):
                    c = Cls(m, n)
                    if fn is None and cls is None:
                        m.classes[n.name] = c
                        m.binds[n.name] = c
                    c.local = fn is not None or cls is not None
                    m.__dict__.setdefault('allclasses', []).append(c)
                    walk(n, c, None)
                else:
                    if fn is None and isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With)):
                        ts = n.targets if isinstance(n, ast.Assign) else \
                            [i.optional_vars for i in n.items if i.optional_vars] if isinstance(n, ast.With) else [n.target]
                        for t in ts:
                            for x in target(t):
                                if cls is not None:
                                    cls.attrs.add(x)
                                else:
                                    m.binds.setdefault(x, ('value', n))
                    if fn is None and cls is None and isinstance(n, ast.Import):
                        for a in n.names:
                            m.binds[a.asname or a.name.split('.')[0]] = ('module', a.name if a.asname else a.name.split('.')[0])
                    if fn is None and cls is None and isinstance(n, ast.ImportFrom):
                        for a in n.names:
                            m.binds[a.asname or a.name] = ('from', self.absmod(m, n), a.name)
                    walk(n, cls, fn)
        walk(m.tree, None, None)
        m.__dict__.setdefault('allclasses', [])

    def absmod(self, m, n):
        """dotted module an ImportFrom names"""
        if n.level == 0:
            return n.module or ''
        is_pkg = m.rel.endswith('__init__.py')
        parts = m.name.split('.')
        parts = parts[:len(parts) - n.level + (1 if is_pkg else 0)]
        return '.'.join(parts + ([n.module] if n.module else []))

    def find_mod(self, name, frm=None):
        """repository module of that dotted name (siblings of a script are importable)"""
        if name in self.mods:
            return self.mods[name]
        if frm is not None and not frm.name.startswith('lcp_physics'):
            sib = frm.name.rsplit('.', 1)[0] + '.' + name
            return self.mods.get(sib)
        return None

    def fn_of(self, m, node):
        """innermost function containing the node"""
        n = node
        while n in m.parent:
            n = m.parent[n]
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for f in m.allfns:
                    if f.node is n:
                        return f
        return None

    def where(self, m, node):
        f = self.fn_of(m, node)
        return '%s:%d (%s)' % (m.rel, getattr(node, 'lineno', 0), f.qual if f else '<module>')


def names_used(node):
    """identifiers occurring in a function (names, attributes, string constants that are identifiers)"""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            out.add(n.value)
    return out


def dotted(e):
    """a.b.c -> ['a','b','c'] or None"""
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return [e.id] + out[::-1]
    return None

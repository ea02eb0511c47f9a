"""C23, C24, C33: whole-program rules over the syntax trees."""
import ast
import builtins
import symtable

from sa.report import Check
from sa.program import Program, Fn, Cls, dotted, names_used
from sa import libapi


# ------------------------------------------------------------ C33
def mro(p, c, seen=None):
    seen = seen if seen is not None else []
    if c in seen:
        return seen
    seen.append(c)
    for b in c.node.bases:
        t = resolve_static(p, c.mod, dotted(b) or [])
        if isinstance(t, Cls):
            mro(p, t, seen)
    return seen


def ext_bases(p, c):
    out = []
    for k in mro(p, c):
        for b in k.node.bases:
            d = dotted(b)
            t = resolve_static(p, k.mod, d or [])
            if not isinstance(t, Cls):
                out.append(t if isinstance(t, str) else None)
    return out


def resolve_static(p, m, parts, local=None):
    """Meaning of a dotted name at module level: Fn, Cls, Mod, 'lib.path' or None."""
    if not parts:
        return None
    b = (local or {}).get(parts[0]) or m.binds.get(parts[0])
    return resolve_bind(p, m, b, parts[1:])


def resolve_bind(p, m, b, rest, depth=0):
    if b is None or depth > 8:
        return None
    if isinstance(b, (Fn, Cls)):
        if not rest:
            return b
        if isinstance(b, Cls) and len(rest) == 1:
            for k in mro(p, b):
                if rest[0] in k.methods:
                    return k.methods[rest[0]]
        return None
    if b[0] == 'module':
        mm = p.find_mod(b[1], m)
        if mm is not None or any(x.startswith(b[1] + '.') for x in p.mods):
            name = b[1]
            while rest and p.find_mod(name + '.' + rest[0], m):
                name, rest = name + '.' + rest[0], rest[1:]
            mm = p.find_mod(name, m)
            if mm is None:
                return None
            return resolve_bind(p, mm, mm.binds.get(rest[0]), rest[1:], depth + 1) if rest else mm
        return '.'.join([b[1]] + rest)
    if b[0] == 'from':
        mm = p.find_mod(b[1], m)
        if mm is not None or any(x.startswith(b[1] + '.') for x in p.mods):
            sub = p.find_mod(b[1] + '.' + b[2], m)
            if mm is not None and b[2] in mm.binds:
                return resolve_bind(p, mm, mm.binds[b[2]], rest, depth + 1)
            if sub is not None:
                return resolve_bind(p, sub, sub.binds.get(rest[0]), rest[1:], depth + 1) if rest else sub
            return None
        return '.'.join([b[1], b[2]] + rest)
    return None


def local_binds(p, m, node):
    """(imports made inside the enclosing functions, names bound otherwise)"""
    imps, bound = {}, set()
    n = node
    while n in m.parent:
        n = m.parent[n]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                bound.add(x.arg)
            if isinstance(n, ast.Lambda):
                continue
            for s in ast.walk(n):
                if isinstance(s, ast.Import):
                    for z in s.names:
                        imps[z.asname or z.name.split('.')[0]] = ('module', z.name if z.asname else z.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    for z in s.names:
                        imps[z.asname or z.name] = ('from', p.absmod(m, s), z.name)
                elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                    bound.add(s.id)
                elif isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s is not n:
                    bound.add(s.name)
                elif isinstance(s, ast.ExceptHandler) and s.name:
                    bound.add(s.name)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for s in ast.walk(n):
                if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                    bound.add(s.id)
    return imps, bound


def class_attrs(p, c, subs):
    """names an instance of the class may have"""
    out = set()
    for k in mro(p, c) + subs.get(c, []):
        out |= k.attrs
        for f in k.mod.allfns:
            if f.cls is k and f.node.args.args:
                s = f.node.args.args[0].arg
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                            isinstance(n.value, ast.Name) and n.value.id == s:
                        out.add(n.attr)
    return out


def arity_ok(fn, npos, kws, skip):
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    kwo = {x.arg for x in a.kwonlyargs}
    if npos > len(pos) and not a.vararg:
        return 'takes %d positional arguments, %d given' % (len(pos), npos)
    given = set(pos[:npos])
    for k in kws:
        if k in given:
            return 'gets the argument %s twice' % k
        if k not in pos and k not in kwo and not a.kwarg:
            return 'has no parameter %s' % k
        given.add(k)
    nd = len(a.defaults)
    for x in (pos[:len(pos) - nd] if nd else pos):
        if x not in given:
            return 'misses the argument %s' % x
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in given:
            return 'misses the argument %s' % x.arg
    return None


def c33():
    c = Check('C33', 'existing operations', 'every import, global name, attribute and call of every module, resolved against the '
              'repository and the installed libraries')
    c.guard('API', c33_run, c)
    return c.finish()


def c33_run(c):
    p = Program()
    B = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__'}
    subs = {}
    allcls = [k for m in p.mods.values() for k in m.allclasses]
    for k in allcls:
        for b in mro(p, k)[1:]:
            subs.setdefault(b, []).append(k)
    stores, methods = set(), set()
    for m in p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                stores.add(n.attr)
            elif isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[-1] in ('namedtuple', 'setattr', 'make_dataclass'):
                # names given as text: fields of named tuples, attributes set by name
                for k in ast.walk(n):
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        stores |= set(k.value.replace(',', ' ').split())
            elif isinstance(n, ast.ClassDef):
                stores |= {k.target.id for k in n.body if isinstance(k, ast.AnnAssign) and isinstance(k.target, ast.Name)}
    repo_attrs = set(stores)
    for k in allcls:
        repo_attrs |= k.attrs
    mods, paths, binds = set(), {}, []
    sites = []                      # (mod, node, kind, data)
    nsym = nattr = ncall = 0

    def islib(name):
        return p.find_mod(name, m) is None and not any(x.startswith(name + '.') or x == name for x in p.mods)

    for m in p.mods.values():
        c.analysed |= {'%s:%s' % (m.rel, f.qual) for f in m.allfns}
        # imports
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if islib(a.name):
                        mods.add(a.name)
                        sites.append((m, n, 'module', a.name))
                    elif p.find_mod(a.name, m) is None:
                        c.viol('import:' + a.name, p.where(m, n), 'imports the module %s, which does not exist' % a.name)
                    else:
                        c.ok('import %s in %s' % (a.name, m.rel))
            elif isinstance(n, ast.ImportFrom):
                src = p.absmod(m, n)
                for a in n.names:
                    if a.name == '*':
                        continue
                    if islib(src):
                        mods.add(src)
                        paths.setdefault(src + '.' + a.name, [])
                        sites.append((m, n, 'from', (src, a.name)))
                    else:
                        t = p.find_mod(src, m)
                        sub = p.find_mod(src + '.' + a.name, m)
                        if (t is not None and a.name in t.binds) or sub is not None:
                            c.ok('import %s.%s in %s' % (src, a.name, m.rel))
                        else:
                            c.viol('import:%s.%s' % (src, a.name), p.where(m, n),
                                   'imports %s from %s, which defines no such name' % (a.name, src))
        # names
        def scopes(t):
            yield t
            for ch in t.get_children():
                yield from scopes(ch)
        star = any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(m.tree))
        if not star:
            gl = set(m.binds)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    gl |= set(n.names)
            tab = symtable.symtable(m.src, m.rel, 'exec')
            for t in scopes(tab):
                for s in t.get_symbols():
                    nm = s.get_name()
                    free = s.is_global() if t.get_type() != 'module' else not (s.is_assigned() or s.is_imported() or s.is_namespace())
                    if s.is_referenced() and free:
                        nsym += 1
                        top = tab.lookup(nm) if nm in tab.get_identifiers() else None
                        if nm in gl or nm in B or (top is not None and (top.is_assigned() or top.is_imported() or top.is_namespace())):
                            c.ok('name %s in %s' % (nm, m.rel))
                        else:
                            c.viol('name:' + nm, '%s (%s)' % (m.rel, t.get_name()), 'uses the name %s, which is defined nowhere' % nm)
        # attributes and calls
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                nattr += 1
                if isinstance(m.parent.get(n), ast.Attribute) and dotted(m.parent[n]):
                    continue                        # judged with the longest chain
                d = dotted(n)
                if d is None:
                    sites.append((m, n, 'attr', [n.attr]))
                    continue
                imps, bound = local_binds(p, m, n)
                if d[0] in bound and d[0] not in imps:
                    f = p.fn_of(m, n)
                    while f is not None and f.cls is None and f.outer is not None:
                        f = f.outer
                    if f is not None and f.cls is not None and not f.is_static() and not f.is_classm() and f.node.args.args \
                            and d[0] == f.node.args.args[0].arg:
                        sites.append((m, n, 'self', (f.cls, d[1:])))
                    else:
                        sites.append((m, n, 'attr', d[1:]))
                    continue
                b = imps.get(d[0]) or m.binds.get(d[0])
                if b is None:
                    sites.append((m, n, 'attr', d[1:]))
                    continue
                sites.append((m, n, 'root', (b, d)))
            if isinstance(n, ast.Call):
                sites.append((m, n, 'call', None))

    # lib paths of dotted chains
    for m, n, kind, data in sites:
        if kind == 'root':
            b, d = data
            if isinstance(b, tuple) and b[0] in ('module', 'from'):
                t = resolve_bind(p, m, b, d[1:])
                if isinstance(t, str):
                    for k in range(1, len(t.split('.')) + 1):
                        paths.setdefault('.'.join(t.split('.')[:k]), [])
        elif kind == 'call':
            d = dotted(n.func)
            if d:
                imps, bound = local_binds(p, m, n)
                if d[0] in bound and d[0] not in imps:
                    continue
                t = resolve_bind(p, m, imps.get(d[0]) or m.binds.get(d[0]), d[1:])
                if isinstance(t, str) and not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
                    binds.append((t, len(n.args), tuple(k.arg for k in n.keywords)))
    ans = libapi.query(mods, paths, sorted(set(binds)))
    bindok = dict(zip(sorted(set(binds)), ans['binds']))
    uni = set(ans['universe'])
    missing = {x for x, ok in ans['modules'].items() if not ok}
    absent = {x.split('.')[0] for x in missing}
    opt = set()
    for m, n, kind, data in sites:
        w = p.where(m, n)
        core = m.name.startswith('lcp_physics')
        if kind == 'module':
            if data in missing and core:
                c.viol('import:' + data, w, 'imports the library %s, which is not installed' % data)
            elif data in missing:
                opt.add(data)
            else:
                c.ok('library %s' % data)
        elif kind == 'from':
            src, nm = data
            if src in missing:
                if core:
                    c.viol('import:' + src, w, 'imports the library %s, which is not installed' % src)
                opt.add(src)
            elif ans['paths'].get(src + '.' + nm) is None and nm != '__future__':
                c.viol('import:%s.%s' % (src, nm), w, 'imports %s from %s, which has no such name in the installed version' % (nm, src))
            else:
                c.ok('import %s.%s' % (src, nm))
    unknown_files = set()
    for m in p.mods.values():
        for b in m.binds.values():
            if isinstance(b, tuple) and b[0] in ('module', 'from') and b[1].split('.')[0] in absent:
                unknown_files.add(m.rel)
    for m, n, kind, data in sites:
        w = p.where(m, n)
        if kind == 'root':
            b, d = data
            if isinstance(b, tuple) and b[0] in ('module', 'from'):
                t = resolve_bind(p, m, b, d[1:])
                if isinstance(t, str):
                    if t.split('.')[0] in absent:
                        continue
                    ps = t.split('.')
                    k0 = len((b[1] if b[0] == 'module' else b[1] + '.' + b[2]).split('.'))
                    for k in range(k0 + 1, len(ps) + 1):
                        pre, cur = '.'.join(ps[:k - 1]), '.'.join(ps[:k])
                        if ans['paths'].get(cur) is None:
                            if ans['paths'].get(pre) in ('module', 'class'):
                                c.viol('lib:' + cur, w, 'uses %s, which the installed library does not have' % cur)
                            elif ps[k - 1] not in uni | repo_attrs:
                                c.viol('attr:' + ps[k - 1], w, 'uses the attribute %s, which no object has' % ps[k - 1])
                            break
                    else:
                        c.ok('%s exists' % t)
                    continue
                # repository chain
                cur, rest = resolve_bind(p, m, b, []), list(d[1:])
                chain_check(c, p, m, n, w, cur, rest, uni | repo_attrs, subs)
            elif isinstance(b, Cls):
                chain_check(c, p, m, n, w, b, list(d[1:]), uni | repo_attrs, subs)
            else:
                for a in d[1:]:
                    judge_attr(c, w, a, uni | repo_attrs, m.rel in unknown_files)
        elif kind == 'self':
            cls, rest = data
            have = class_attrs(p, cls, subs)
            ext = [e for e in ext_bases(p, cls) if e is None or e != 'object']
            a = rest[0]
            if a in have or a in stores or a in dir(object) or (ext and a in uni):
                c.ok('self.%s of %s' % (a, cls.name))
            else:
                c.viol('self:%s.%s' % (cls.name, a), w, 'uses the attribute %s of %s, which nothing defines' % (a, cls.name))
            for a in rest[1:]:
                judge_attr(c, w, a, uni | repo_attrs, m.rel in unknown_files)
        elif kind == 'attr':
            for a in data:
                judge_attr(c, w, a, uni | repo_attrs, m.rel in unknown_files)
        elif kind == 'call':
            ncall += 1
            judge_call(c, p, m, n, w, subs, uni, bindok)
    # legacy autograd functions
    for k in allcls:
        if any(e and e.startswith('torch.autograd') and e.endswith('Function') for e in ext_bases(p, k)):
            for nm in ('forward', 'backward'):
                f = k.methods.get(nm)
                if f is not None:
                    c.eq(f.is_static(), '%s.%s is static' % (k.name, nm), 'legacy:%s' % k.name, f.where,
                         '%s is written as a legacy autograd function (instance %s), which the installed library cannot run' % (k.name, nm))
    c.counts = {'modules': len(p.mods), 'global names': nsym, 'attribute uses': nattr, 'calls': ncall, 'not installed, optional': sorted(opt)}
    if opt:
        c.assumptions.append('the optional libraries %s are not installed; what the experiments call on them is not judged' % ', '.join(sorted(opt)))


def chain_check(c, p, m, n, w, cur, rest, uni, subs):
    if isinstance(cur, Cls) and rest:
        have = class_attrs(p, cur, {}) | {x for k in mro(p, cur) for x in k.attrs}
        ext = [e for e in ext_bases(p, cur) if e is None or e != 'object']
        if rest[0] in have or rest[0] in dir(type) or (ext and rest[0] in uni):
            c.ok('%s.%s' % (cur.name, rest[0]))
        else:
            c.viol('class:%s.%s' % (cur.name, rest[0]), w, 'uses %s.%s, which nothing defines' % (cur.name, rest[0]))
        rest = rest[1:]
    elif cur is not None and hasattr(cur, 'binds'):
        while rest and hasattr(cur, 'binds'):
            name = cur.name + '.' + rest[0]
            if rest[0] in cur.binds:
                nxt = resolve_bind(p, cur, cur.binds[rest[0]], [])
            elif name in p.mods:
                nxt = p.mods[name]
            else:
                c.viol('module:%s.%s' % (cur.name, rest[0]), w, 'uses %s of the module %s, which does not define it' % (rest[0], cur.name))
                return
            c.ok('%s.%s' % (cur.name, rest[0]))
            cur, rest = nxt, rest[1:]
        if rest:
            return chain_check(c, p, m, n, w, cur, rest, uni, subs)
    for a in rest:
        judge_attr(c, w, a, uni, False)


def judge_attr(c, w, a, uni, lax):
    if a in uni or lax:
        c.ok('attribute %s' % a)
    else:
        c.viol('attr:' + a, w, 'uses the attribute %s, which no object of the installed libraries or the package has' % a)


def judge_call(c, p, m, n, w, subs, uni, bindok):
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return
    npos, kws = len(n.args), [k.arg for k in n.keywords]
    f = n.func
    d = dotted(f)
    cands, skip = None, 0
    if d:
        imps, bound = local_binds(p, m, n)
        if d[0] not in bound or d[0] in imps:
            t = resolve_bind(p, m, imps.get(d[0]) or m.binds.get(d[0]), d[1:])
            if isinstance(t, str):
                r = bindok.get((t, npos, tuple(kws)), 'unknown')
                if r.startswith('no'):
                    c.viol('call:' + t, w, 'calls %s in a way it does not accept (%s)' % (t, r[4:]))
                else:
                    c.ok('call of %s' % t)
                return
            if isinstance(t, Fn):
                cands = [t]
                skip = 1 if t.is_classm() else 0
            elif isinstance(t, Cls):
                init = [k.methods['__init__'] for k in mro(p, t) if '__init__' in k.methods]
                deco = t.node.decorator_list
                if init and not deco:
                    cands, skip = [init[0]], 1
                elif any(e is None or e != 'object' for e in ext_bases(p, t)) or deco:
                    return
                else:
                    c.eq(npos == 0 and not kws, 'call of %s' % t.name, 'call:' + t.name, w, 'passes arguments to %s, which takes none' % t.name)
                    return
    if cands is None and isinstance(f, ast.Attribute):
        fn = p.fn_of(m, n)
        while fn is not None and fn.cls is None and fn.outer is not None:
            fn = fn.outer
        own = fn is not None and fn.cls is not None and fn.node.args.args and not fn.is_static() and isinstance(f.value, ast.Name) \
            and f.value.id == fn.node.args.args[0].arg
        sup = fn is not None and fn.cls is not None and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'
        if own or sup:
            chain = mro(p, fn.cls)[1 if sup else 0:]
            hit = next((k.methods[f.attr] for k in chain if f.attr in k.methods), None)
            if hit is None and own:
                return
            if hit is None:
                if not ext_bases(p, fn.cls) and f.attr not in dir(object):
                    c.viol('super:' + f.attr, w, 'calls %s of a base class that has none' % f.attr)
                return
            cands = [hit] + ([s.methods[f.attr] for s in subs.get(fn.cls, []) if f.attr in s.methods] if own else [])
            if any(x.node.decorator_list and not x.is_static() and not x.is_classm() for x in cands):
                return
            bad = [arity_ok(x, npos, kws, 0 if x.is_static() else 1) for x in cands]
            c.eq(not any(bad), 'call of %s' % f.attr, 'call:%s' % cands[0].qual, w, 'calls %s, which %s' % (cands[0].qual, next((b for b in bad if b), '')))
            return
        if f.attr not in uni:
            ms = [x for x in p.byname.get(f.attr, [])]
            stored = any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == f.attr for mm in p.mods.values() for y in ast.walk(mm.tree))
            if ms and not stored:
                bad = [arity_ok(x, npos, kws, 1 if x.cls is not None and not x.is_static() else 0) for x in ms]
                if all(bad):
                    c.viol('call:' + f.attr, w, 'calls %s, which %s' % (f.attr, bad[0]))
                else:
                    c.ok('call of %s' % f.attr)
        return
    if cands:
        if any(x.node.decorator_list and not x.is_static() and not x.is_classm() for x in cands):
            return
        bad = [arity_ok(x, npos, kws, skip) for x in cands]
        c.eq(not any(bad), 'call of %s' % cands[0].qual, 'call:%s' % cands[0].qual, w, 'calls %s, which %s' % (cands[0].qual, bad[0]))


# ------------------------------------------------------------ reachability
SHOW = {'draw', 'record', 'plot', 'run_world', 'print_header'}


def roots_of(p):
    """what building, stepping and differentiating a simulation executes"""
    out = []
    for m in p.mods.values():
        if not m.name.startswith('lcp_physics') or m.name.endswith('dev_pdipm'):
            continue
        for f in m.allfns:
            if f.cls is not None and f.name not in SHOW and f.cls.name != 'Recorder' and f.outer is None:
                out.append(f)
    return out


def reachable(p, roots):
    """functions whose name occurs in a reachable function (over-approximate call graph)"""
    cls = {}
    for m in p.mods.values():
        for k in m.allclasses:
            cls.setdefault(k.name, []).append(k)
    seen, todo = {}, [(f, None) for f in roots]
    while todo:
        f, frm = todo.pop()
        if f in seen:
            continue
        seen[f] = frm
        for nm in names_used(f.node):
            for g in p.byname.get(nm, []):
                if g.mod.name.startswith('lcp_physics') and not g.mod.name.endswith('dev_pdipm') and g.name not in SHOW:
                    todo.append((g, f))
            for k in cls.get(nm, []):
                if k.mod.name.startswith('lcp_physics') and not k.mod.name.endswith('dev_pdipm') and k.name != 'Recorder':
                    for g in k.methods.values():
                        if g.name.startswith('__'):
                            todo.append((g, f))
        # nested functions run with their owner
        for g in f.mod.allfns:
            if g.outer is f:
                todo.append((g, f))
    return seen


def route(seen, f):
    out = []
    while f is not None and len(out) < 8:
        out.append(f.qual)
        f = seen[f]
    return ' <- '.join(out)


# ------------------------------------------------------------ C24
PREF = ('random.', 'secrets.', 'uuid.', 'time.', 'datetime.', 'numpy.random.', 'torch.random.', 'socket.', 'platform.', 'gc.',
        'threading.get_ident', 'os.environ', 'os.getenv', 'os.urandom', 'os.getpid', 'os.times', 'os.getloadavg', 'os.stat', 'os.path.getmtime',
        'torch.rand', 'torch.normal', 'torch.bernoulli', 'torch.multinomial', 'torch.poisson', 'torch.seed', 'torch.initial_seed',
        'torch.cuda.is_available', 'torch.cuda.memory', 'torch.nn.functional.dropout', 'torch.dropout', 'sys.argv', 'sys.flags', 'sys.getrefcount',
        'psutil.', 'resource.', 'locale.', 'getpass.')
EXCEPT = ('time.sleep', 'random.seed', 'numpy.random.seed', 'torch.random.manual_seed', 'torch.random.fork_rng')
SEEDED = ('random.Random', 'numpy.random.RandomState', 'numpy.random.default_rng')
METHODS = {'normal_', 'uniform_', 'random_', 'bernoulli_', 'exponential_', 'cauchy_', 'log_normal_', 'geometric_'}
QUIET = {'print', 'print_header', 'warn', 'debug', 'info', 'warning', 'error', 'log', 'write', 'flush', 'format', 'str', 'repr', 'sleep',
         'int', 'float', 'round', 'max', 'min', 'abs'}
SINKLESS = {'print', 'print_header', 'warn', 'debug', 'info', 'warning', 'error', 'log', 'write', 'flush', 'sleep'}


class Flow:
    """Values of non-deterministic sources, followed through locals, attributes and returns by name."""

    def __init__(self, p, fns):
        self.p, self.fns = p, fns
        self.rng = {}
        for m in p.mods.values():
            for n in m.tree.body:
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                    t = self.path(m, n.value.func)
                    if t and (t in SEEDED or t == 'torch.Generator' or t.startswith(('numpy.random.', 'random.'))):
                        for x in n.targets:
                            if isinstance(x, ast.Name):
                                self.rng[(m.name, x.id)] = t
        self.attrs, self.rets = set(), set()
        self.found = {}
        self.glob = {}
        for m in p.mods.values():                     # values made when modules and classes are loaded
            if not m.name.startswith('lcp_physics'):
                continue
            for n in m.tree.body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    t = self.tainted(m, n.value, None, {})
                    for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if t and isinstance(x, ast.Name):
                            self.glob[(m.name, x.id)] = t
                elif isinstance(n, ast.ClassDef):
                    for k in n.body:
                        if isinstance(k, ast.Assign) and self.tainted(m, k.value, None, {}):
                            self.attrs |= {x.id for x in k.targets if isinstance(x, ast.Name)}

    def path(self, m, e, at=None):
        d = dotted(e)
        if not d:
            if isinstance(e, ast.Attribute):
                tail, b = [], e
                while isinstance(b, ast.Attribute):
                    tail.append(b.attr)
                    b = b.value
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == '__import__' and b.args and isinstance(b.args[0], ast.Constant):
                    return '.'.join([str(b.args[0].value)] + tail[::-1])
            return None
        imps, bound = local_binds(self.p, m, at) if at is not None else ({}, set())
        if d[0] in bound and d[0] not in imps:
            return None
        t = resolve_bind(self.p, m, imps.get(d[0]) or m.binds.get(d[0]), d[1:])
        if isinstance(t, str):
            t = t.replace('np.', 'numpy.', 1) if t.startswith('np.') else t
            return t
        return None

    def source(self, m, n, fn):
        """text if this node is itself a non-deterministic source"""
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
            par = m.parent.get(n)
            if isinstance(par, ast.Attribute) and par.value is n and dotted(par):
                return None
            if isinstance(n, ast.Name) and n.id in ('id', 'hash') and n.id not in m.binds and n.id not in local_binds(self.p, m, n)[1]:
                if isinstance(par, ast.Call) and par.func is n:
                    return None if self.id_benign(m, par, fn) else 'object identity (%s)' % n.id
                return 'object identity (%s)' % n.id
            d = dotted(n)
            if d and (m.name, d[0]) in self.rng and d[0] not in local_binds(self.p, m, n)[1]:
                return 'a random generator shared by all simulations (%s)' % d[0]
            t = self.path(m, n, n)
            if t is None:
                if isinstance(n, ast.Attribute) and n.attr in METHODS and isinstance(par, ast.Call) and par.func is n:
                    return 'random numbers (%s)' % n.attr
                return None
            if t in EXCEPT:
                return None
            if t in SEEDED and isinstance(par, ast.Call) and par.func is n and (par.args or par.keywords) and \
                    all(isinstance(a, ast.Constant) and a.value is not None for a in par.args):
                return None
            if t.startswith(PREF) or any(t == x.rstrip('.') for x in PREF):
                if t in ('datetime.timedelta', 'datetime.datetime', 'datetime.timezone'):
                    return None
                return t
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('open', 'input'):
            return n.func.id
        return None

    def id_benign(self, m, call, fn):
        par = m.parent.get(call)
        if isinstance(par, ast.Compare) and all(isinstance(o, (ast.Eq, ast.NotEq)) for o in par.ops):
            return True
        loc = set()
        if fn is not None:
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    loc.add(n.id)
        if isinstance(par, ast.Compare) and all(isinstance(o, (ast.In, ast.NotIn)) for o in par.ops):
            return all(isinstance(x, ast.Name) and x.id in loc for x in par.comparators)
        if isinstance(par, ast.Subscript) and par.slice is call:
            return isinstance(par.value, ast.Name) and par.value.id in loc
        if isinstance(par, ast.DictComp) and par.key is call:
            return isinstance(m.parent.get(par), ast.Assign) and isinstance(m.parent[par].targets[0], ast.Name)
        if isinstance(par, ast.Call) and isinstance(par.func, ast.Attribute) and par.func.attr in ('get', 'setdefault', 'pop', 'add') and par.args[0] is call:
            return isinstance(par.func.value, ast.Name) and par.func.value.id in loc
        return False

    # -------- taint
    def tainted(self, m, e, fn, loc):
        """source text if the expression may carry a non-deterministic value"""
        for n in ast.walk(e):
            t = self.source(m, n, fn)
            if t:
                return t
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc:
                return loc[n.id]
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and self.glob:
                b = m.binds.get(n.id)
                k = (b[1], b[2]) if isinstance(b, tuple) and b[0] == 'from' else (m.name, n.id)
                if k in self.glob and n.id not in local_binds(self.p, m, n)[1]:
                    return self.glob[k]
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in self.attrs:
                return 'the attribute ' + n.attr
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                if nm in self.rets:
                    return 'the result of ' + nm
        return None

    def quiet_call(self, m, n):
        if not isinstance(n, ast.Call):
            return False
        nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
        return nm in SINKLESS

    def quiet_block(self, m, body):
        for s in body:
            if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or self.quiet_call(m, s.value))):
                continue
            if isinstance(s, ast.If) and self.quiet_block(m, s.body) and self.quiet_block(m, s.orelse):
                continue
            return False
        return True

    def run(self):
        for _ in range(6):
            before = (len(self.attrs), len(self.rets))
            self.found = {}
            for f in self.fns:
                self.scan(f)
            if (len(self.attrs), len(self.rets)) == before:
                break
        return self.found

    def hit(self, f, n, what, src):
        self.found.setdefault((f.mod.rel, f.qual, src, what), (f, n))

    def scan(self, f):
        m = f.mod
        loc = {}
        a = f.node.args
        for x, d in list(zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            t = d is not None and self.tainted(m, d, f, {})
            if t:
                loc[x.arg] = t
        body = f.node.body if isinstance(f.node.body, list) else []
        for _ in range(4):
            n0 = len(loc)
            for s in ast.walk(f.node):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and s.value is not None:
                    t = self.tainted(m, s.value, f, loc)
                    if t:
                        for x in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                            for y in ast.walk(x):
                                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                    loc.setdefault(y.id, t)
                                elif isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                                    self.attrs.add(y.attr)
            if len(loc) == n0:
                break
        self.stmts(f, body, loc)

    def stmts(self, f, body, loc):
        m = f.mod
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
                continue
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                simple = all(isinstance(x, (ast.Name, ast.Attribute)) or
                             (isinstance(x, (ast.Tuple, ast.List)) and all(isinstance(y, (ast.Name, ast.Attribute)) for y in x.elts)) for x in ts)
                if s.value is not None:
                    t = self.tainted(m, s.value, f, loc)
                    if t and not simple:
                        self.hit(f, s, 'stores a value derived from it', t)
                    elif t:
                        self.calls(f, s.value, loc)
            elif isinstance(s, ast.Expr):
                if not self.quiet_call(m, s.value):
                    t = self.tainted(m, s.value, f, loc)
                    if t:
                        if isinstance(s.value, ast.Call) and self.path(m, s.value.func, s.value) and not any(
                                self.tainted(m, a, f, loc) for a in s.value.args):
                            self.hit(f, s, 'uses it', t) if not (t or '').startswith('time.') else None
                        else:
                            self.hit(f, s, 'passes it on', t)
            elif isinstance(s, ast.Return):
                if s.value is not None and self.tainted(m, s.value, f, loc):
                    self.rets.add(f.name)
                    self.hit(f, s, 'returns a value derived from it', self.tainted(m, s.value, f, loc))
            elif isinstance(s, (ast.If, ast.While)):
                t = self.tainted(m, s.test, f, loc)
                if t and not (isinstance(s, ast.If) and self.quiet_block(m, s.body) and self.quiet_block(m, s.orelse)):
                    self.hit(f, s, 'decides by it', t)
                self.stmts(f, s.body, loc)
                self.stmts(f, s.orelse, loc)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                t = self.tainted(m, s.iter, f, loc)
                if t:
                    self.hit(f, s, 'iterates over it', t)
                self.stmts(f, s.body, loc)
                self.stmts(f, s.orelse, loc)
            elif isinstance(s, ast.With):
                for i in s.items:
                    t = self.tainted(m, i.context_expr, f, loc)
                    if t:
                        self.hit(f, s, 'uses it', t)
                self.stmts(f, s.body, loc)
            elif isinstance(s, ast.Try):
                for b in (s.body, s.orelse, s.finalbody) + tuple(h.body for h in s.handlers):
                    self.stmts(f, b, loc)
            elif isinstance(s, (ast.Assert, ast.Raise, ast.Delete)):
                t = self.tainted(m, s, f, loc)
                if t:
                    self.hit(f, s, 'decides by it', t)

    def calls(self, f, e, loc):
        """a tainted expression bound to a name: inner calls get the value, too"""
        m = f.mod
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                if nm in QUIET or self.path(m, n.func, n) is not None:
                    continue
                for a in list(n.args) + [k.value for k in n.keywords]:
                    t = self.tainted(m, a, f, loc)
                    if t:
                        self.hit(f, n, 'passes it on', t)
            elif isinstance(n, ast.IfExp) and self.tainted(m, n.test, f, loc):
                self.hit(f, n, 'decides by it', self.tainted(m, n.test, f, loc))
            elif isinstance(n, ast.Subscript) and self.tainted(m, n.slice, f, loc):
                self.hit(f, n, 'selects by it', self.tainted(m, n.slice, f, loc))


# ---- iteration over sets of objects
def set_exprs(p):
    """attributes that hold sets"""
    out = set()
    for m in p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and is_set(n.value, {}, set()):
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        out.add(t.attr)
    return out


def is_set(e, loc, attrs):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return not (isinstance(e, ast.Set) and all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in e.elts)) and \
            not (isinstance(e, ast.SetComp) and intlike(e.elt))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset'):
        return not (e.args and intlike(e.args[0]))
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set(e.left, loc, attrs) or (not isinstance(e.op, ast.Sub) and is_set(e.right, loc, attrs))
    if isinstance(e, ast.Name):
        return loc.get(e.id, False)
    if isinstance(e, ast.Attribute):
        return e.attr in attrs
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('union', 'intersection', 'difference', 'copy', 'symmetric_difference'):
        return is_set(e.func.value, loc, attrs)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'enumerate', 'iter', 'reversed', 'zip', 'map', 'filter', 'next'):
        return any(is_set(a, loc, attrs) for a in e.args)
    return False


def intlike(e):
    """evidently (made of) plain numbers"""
    if isinstance(e, ast.Constant):
        return isinstance(e.value, (int, float))
    if isinstance(e, ast.Tuple):
        return all(intlike(x) for x in e.elts)
    if isinstance(e, ast.BinOp):
        return intlike(e.left) and intlike(e.right)
    if isinstance(e, ast.Call):
        nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
        return nm in ('range', 'len', 'index', 'int', 'round') or (nm in ('map',) and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id in ('int', 'len'))
    if isinstance(e, ast.Attribute):
        return e.attr == 'body'                       # geom.body is the body's index
    if isinstance(e, ast.Name):
        return e.id in ('i', 'j', 'k', 'i1', 'i2', 'n', 'idx', 'index')
    if isinstance(e, (ast.GeneratorExp, ast.ListComp)):
        return intlike(e.elt)
    return False


FREE = {'any', 'all', 'len', 'set', 'frozenset', 'sorted', 'bool', 'min', 'max'}


def set_orders(f, attrs):
    loc = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            s = is_set(n.value, {}, attrs)
            loc[n.targets[0].id] = s and loc.get(n.targets[0].id, True)
    m = f.mod
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and is_set(n.iter, loc, attrs):
            if not all(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and
                       s.value.func.attr in ('add', 'discard', 'update', 'remove') for s in n.body):
                yield n
        elif isinstance(n, (ast.GeneratorExp, ast.ListComp)) and any(is_set(g.iter, loc, attrs) for g in n.generators):
            par = m.parent.get(n)
            if not (isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id in FREE):
                yield n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args and is_set(n.args[0], loc, attrs):
            yield n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and not n.args and is_set(n.func.value, loc, attrs):
            yield n


def c24():
    c = Check('C24', 'reproducible simulation', 'everything building and stepping a simulation can execute (over-approximate call graph by '
              'names): non-deterministic sources, followed through locals, attributes and results; iteration order of sets of objects')
    c.guard('sources', c24_run, c)
    return c.finish()


def c24_run(c):
    p = Program()
    roots = roots_of(p)
    names = {f.qual for f in roots}
    if 'World.step' not in names or len(roots) < 30:
        raise AssertionError('World.step is not in the call graph')
    seen = reachable(p, roots)
    c.analysed |= {'%s:%s' % (f.mod.rel, f.qual) for f in seen}
    fl = Flow(p, sorted(seen, key=lambda f: (f.mod.rel, f.node.lineno)))
    found = fl.run()
    bad = {}
    for (rel, q, src, what), (f, n) in found.items():
        bad.setdefault(f, []).append((src, what, n))
    attrs = set_exprs(p)
    for f in fl.fns:
        for n in set_orders(f, attrs):
            bad.setdefault(f, []).append(('the order of a set of objects', 'iterates over it', n))
    for f in fl.fns:
        if f not in bad:
            c.ok('%s %s consults no source' % (f.mod.rel, f.qual))
        else:
            for src, what, n in bad[f]:
                c.viol('source:%s:%s:%s' % (f.qual, src, what), '%s:%d (%s)' % (f.mod.rel, n.lineno, f.qual), 'depends on %s: %s' % (src, what),
                       'no random numbers, clocks, identities or environment', 'reached as ' + route(seen, f))
    c.counts = {'functions': len(fl.fns), 'roots': len(roots)}


CHECKS = {'C33': c33, 'C24': c24}
TECH = {'C24': 'information-flow analysis over a call graph (syntax trees)',
        'C33': 'whole-program name, attribute and arity resolution over the syntax trees against the installed libraries'}

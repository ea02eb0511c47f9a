"""Which names the installed libraries provide (looked up in the libraries, not in /repo)."""
import json
import os
import subprocess
import sys

PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable

PROBE = r'''
import sys, json, importlib, importlib.util, inspect, warnings, os
warnings.simplefilter('ignore')
os.environ.setdefault('PYGAME_HIDE_SUPPORT_PROMPT', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.path = [p for p in sys.path if p not in ('', os.getcwd())]
q = json.load(sys.stdin)
out = {'modules': {}, 'paths': {}, 'universe': [], 'binds': []}

def imp(name):
    try:
        return importlib.import_module(name)
    except BaseException:
        return None
for m in q['modules']:
    out['modules'][m] = imp(m) is not None
MISS = object()

def resolve(path):
    parts = path.split('.')
    for k in range(len(parts), 0, -1):
        name = '.'.join(parts[:k])
        if name in sys.modules or (k == 1 and imp(name) is not None):
            o = sys.modules[name]
            for j, a in enumerate(parts[k:]):
                nxt = getattr(o, a, MISS)
                if nxt is MISS and inspect.ismodule(o):
                    nxt = imp('.'.join(parts[:k + j + 1])) or MISS
                if nxt is MISS:
                    return MISS
                o = nxt
            return o
    return MISS
for p in q['paths']:
    o = resolve(p)
    out['paths'][p] = None if o is MISS else ('module' if inspect.ismodule(o) else 'class' if inspect.isclass(o) else 'value')
uni = set()
for t in (object, int, float, str, bytes, list, tuple, dict, set, frozenset, bool, complex, type(lambda: 0), BaseException, range, slice, type((x for x in ())), type({}.keys()), type({}.items())):
    uni.update(dir(t))
for p in q['types']:
    o = resolve(p)
    if o is not MISS:
        uni.update(dir(o))
out['universe'] = sorted(uni)
for p, n, ks in q['binds']:
    o = resolve(p)
    r = 'unknown'
    if o is not MISS:
        try:
            s = inspect.signature(o)
            try:
                s.bind(*[None] * n, **{k: None for k in ks})
                r = 'ok'
            except TypeError as e:
                r = 'no: %s' % e
        except (TypeError, ValueError):
            pass
    out['binds'].append(r)
json.dump(out, sys.__stdout__)
'''

TYPES = ['torch.Tensor', 'torch.Size', 'torch.dtype', 'torch.device', 'torch.nn.Module', 'torch.nn.Parameter',
         'torch.optim.Optimizer', 'torch.optim.RMSprop', 'torch.optim.Adam', 'torch.optim.SGD', 'torch.autograd.Function',
         'torch.autograd.function.FunctionCtx', 'numpy.ndarray', 'numpy.generic', 'numpy.dtype', 'ode.GeomSphere', 'ode.GeomBox', 'ode.GeomObject',
         'ode.HashSpace', 'ode.Contact', 'ode.World', 'ode.Body', 'pygame.Surface', 'pygame.Rect', 'pygame.event.Event', 'pygame.time.Clock',
         'argparse.ArgumentParser', 'argparse.Namespace', 'datetime.datetime', 'io.TextIOWrapper', 'matplotlib.figure.Figure', 'matplotlib.axes.Axes',
         'pygame.font.Font', 'scipy.sparse.csr_matrix', 'functools.partial', 'random.Random', 'torch.Generator']


def query(modules, paths, binds, extra=()):
    q = {'modules': sorted(modules), 'paths': sorted(paths), 'binds': list(binds), 'types': TYPES + list(extra)}
    r = subprocess.run([PY, '-c', PROBE], input=json.dumps(q), capture_output=True, text=True, timeout=300, cwd='/')
    if r.returncode != 0:
        raise AssertionError('library lookup failed: %s' % r.stderr[-300:])
    return json.loads(r.stdout[r.stdout.index('{'):])

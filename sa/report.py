"""Obligations, verdicts, evidence and known findings."""
import json
import os
import sys
import time
import traceback

from .terms import Imprecise
from .values import AbsRaise

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Check:
    def __init__(self, pid, title, rule):
        self.pid, self.title, self.rule = pid, title, rule
        self.t0 = time.time()
        self.obl = []            # (text, status)
        self.viols = []          # dicts
        self.undec = []
        self.analysed = set()    # functions analysed
        self.known_hit = []
        self.assumptions = []
        self.counts = {}
        self.sessions = []

    # -------------------------------------------------------------- results
    def ok(self, text):
        self.obl.append((text, 'discharged'))

    def viol(self, key, where, msg, expected=None, found=None):
        """key: stable identity of the violation (known-findings match it)."""
        for v in self.viols:
            if v['key'] == key:
                return
        self.obl.append(('%s: %s' % (where, msg), 'violated'))
        self.viols.append({'key': key, 'where': where, 'what': msg, 'expected': expected, 'found': found})

    def undecided(self, text):
        self.obl.append((text, 'undecided'))
        self.undec.append(text)

    def guard(self, text, fn, *a):
        """Run an analysis step; an imprecision makes this obligation undecided."""
        try:
            return fn(*a)
        except Imprecise as e:
            self.undecided('%s: %s' % (text, e))
        except AbsRaise:
            if not self.implicit():
                self.undecided('%s: always raises' % text)
        except RecursionError:
            self.undecided('%s: recursion limit' % text)
        except AssertionError as e:
            self.undecided('%s: %s' % (text, e))
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, ZeroDivisionError) as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.undecided('%s: analysis gap %s: %s (%s:%d)' % (text, type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        return None

    def eq(self, cond, text, key, where, msg, expected=None, found=None):
        if cond:
            self.ok(text)
        else:
            self.viol(key, where, msg, expected, found)
        return cond

    # -------------------------------------------------------------- end
    def implicit(self):
        """Operations that raise on inputs of the analysed scenes (none of which should fail)."""
        out = {}
        for w in self.sessions:
            for r in w.ip.raised:
                if r.kind == 'implicit' and r.guard is not False:
                    out.setdefault((r.what, r.func), r)
        return out

    def finish(self):
        for (what, func), r in self.implicit().items():
            self.viol('raises:%s:%s' % (func, what), '%s (%s)' % (r.loc, func), 'a valid scene makes this raise %s' % what,
                      'no exception', clip('when %r' % (r.guard,) if r.guard is not True else 'always'))
        known = load_known(self.pid)
        out = []
        for v in self.viols:
            if v['key'] in known:
                self.known_hit.append(v)
            else:
                out.append(v)
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '0') or 0)
        disc = sum(1 for _, s in self.obl if s == 'discharged')
        distinct = {}
        for t, s in self.obl:
            distinct[t] = s
        if not self.obl:
            self.undec.append('no obligation was generated')
        ev = {
            'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the sources under %s. Rule: %s' % (REPO, self.rule),
                'functions_analysed': sorted(self.analysed),
                'obligations': len(self.obl), 'discharged': disc,
                'violated': len(self.viols), 'undecided': len(self.undec),
                'obligation_list': ['%s [%s]' % (t, s) for t, s in distinct.items()][:400],
                'counts': self.counts,
                'known_findings': [v['key'] for v in self.known_hit],
                'assumptions': self.assumptions,
            },
            'wall_s': round(time.time() - self.t0, 3),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s: %d obligations, %d discharged, %d violated (%d listed as known), %d undecided; %d functions; %.1fs' % (
            self.pid, self.title, len(self.obl), disc, len(self.viols), len(self.known_hit), len(self.undec),
            len(self.analysed), time.time() - self.t0))
        for v in self.known_hit:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, v['where'], v['what']))
        for u in self.undec[:20]:
            print('UNDECIDED: property=%s %s' % (self.pid, u))
        if out:
            d = os.path.join(VERIF, 'out')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, self.pid + '.violation.txt')
            with open(p, 'w') as f:
                for v in out:
                    f.write('property: %s  %s\nrule: %s\nwhere: %s\nviolation: %s\nexpected: %s\nfound: %s\nkey: %s\n\n' % (
                        self.pid, self.title, self.rule, v['where'], v['what'], v['expected'], v['found'], v['key']))
            for v in out:
                print('  %s: %s' % (v['where'], v['what']))
                if v['expected'] is not None:
                    print('     expected: %s' % clip(v['expected']))
                if v['found'] is not None:
                    print('     found:    %s' % clip(v['found']))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        if self.undec:
            print('ERROR property=%s could not be decided' % self.pid)
            return 2
        return 0


def clip(x, n=600):
    s = str(x)
    return s if len(s) <= n else s[:n] + ' ...'


def load_known(pid):
    """keys of known findings of this property; 'fixed:' lines suppress nothing."""
    p = os.path.join(VERIF, 'known_findings.txt')
    out = set()
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % pid):
                    out.add(line.split('key=', 1)[1].split(' | ')[0].strip())
    return out

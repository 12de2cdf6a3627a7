#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]

Decides one property on the current source of /repo.
exit 0: held; exit 1 + VIOLATION line: broken; exit 2: analysis broken."""
import sys, os, time, json, tempfile, shutil, importlib, traceback, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.setrecursionlimit(20000)
import ir


class Ctx:
    def __init__(self, prop, tier, scratch):
        self.prop = prop
        self.tier = tier
        self.scratch = scratch
        self.violations = []     # (key, text)
        self.counts = {}
        self.rule = ''
        self.assumptions = []
        self.samples = []

    def violation(self, key, text):
        """key: stable identity of the construct (function/site, no line numbers)."""
        self.violations.append((key, text))

    def floor(self, what, n, least):
        self.counts[what] = n
        if n < least:
            ir.broken('%s: only %d, at least %d expected (anchors vanished?)' % (what, n, least))


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    r = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l[len('known: property=%s ' % prop):]
                key, _, txt = rest.partition(' :: ')
                r[key.strip()] = txt
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if '--repo' in sys.argv:
        ir.REPO = sys.argv[sys.argv.index('--repo') + 1]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    ctx = Ctx(prop, tier, scratch)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rc = 2
    try:
        mod = importlib.import_module(prop.lower())
        mod.run(ctx)
        known = known_findings(prop)
        new, old = [], []
        for k, t in ctx.violations:
            (old if k in known else new).append((k, t))
        for k, t in old:
            print('KNOWN-FINDING: property=%s %s %s' % (prop, k, known[k]))
        rep = os.path.join(ev, prop + '.violation.txt')
        if os.path.exists(rep):
            os.unlink(rep)
        out = {
            'property': prop, 'tier': tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': getattr(mod, 'LEVEL', 'other'),
            'coverage': dict(explanation=ctx.rule, **ctx.counts),
            'assumptions': ctx.assumptions,
            'wall_s': round(time.time() - t0, 2),
            'violations': len(new),
        }
        if ctx.samples:
            out['coverage']['samples'] = ctx.samples[:40]
        json.dump(out, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
        for k, v in ctx.counts.items():
            print('%s: %s' % (k, v))
        if new:
            with open(rep, 'w') as f:
                for k, t in new:
                    f.write('[%s] %s\n' % (k, t))
                    print('  [%s] %s' % (k, t))
            print('VIOLATION property=%s replay=%s' % (prop, rep))
            rc = 1
        else:
            print('%s: held on everything analysed (%.1f s)' % (prop, time.time() - t0))
            rc = 0
    except ir.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e))
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error' % prop)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()

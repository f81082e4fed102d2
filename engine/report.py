"""Verdicts, known findings, evidence."""
import json, os, re, sys, time, traceback
from . import frontend
from .frontend import AnalysisBroken, HERE

FINDINGS = os.path.join(HERE, 'KNOWN-FINDINGS')


def known(prop):
    """finding: property=<id> key=<key> -- <text>"""
    r = {}
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            m = re.match(r'finding: property=(\S+) key=(\S+) -- (.*)$', ln.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


class Report:
    def __init__(s, prop, tier):
        s.prop, s.tier = prop, tier
        s.t0 = time.time()
        s.viol = {}
        s.counts = {}
        s.floors = []
        s.rules = []
        s.assume = []
        s.samples = {}

    def count(s, what, n=1, sample=None):
        s.counts[what] = s.counts.get(what, 0) + n
        if sample is not None:
            s.samples.setdefault(what, [])
            if len(s.samples[what]) < 400 and sample not in s.samples[what]:
                s.samples[what].append(sample)

    def floor(s, what, n, why=''):
        """instances confirmed by hand on the pinned tree: fewer than n means the rule lost its anchor"""
        s.floors.append((what, n, why))

    def rule(s, text):
        s.rules.append(text)

    def assumption(s, text):
        s.assume.append(text)

    def violation(s, key, where, msg, trace=None):
        """where: (file, line, function[, chain]) ; key: stable identity without line numbers"""
        key = re.sub(r'\s+', '_', key)
        if key in s.viol:
            return
        s.viol[key] = (where, msg, trace)

    def selftest(s, name, ok):
        s.count('positive examples that fired', 1 if ok else 0)
        if not ok:
            raise AnalysisBroken('positive example did not fire: ' + name)

    def finish(s):
        kn = known(s.prop)
        bad = []
        for key, v in sorted(s.viol.items()):
            if key in kn:
                print('KNOWN-FINDING: property=%s %s [%s]' % (s.prop, kn[key], key))
            else:
                bad.append((key, v))
        if not bad:
            # vanished anchors are an error of the check, unless a violation explains them
            for what, n, why in s.floors:
                if s.counts.get(what, 0) < n:
                    raise AnalysisBroken('%s: %d instance(s) of "%s", at least %d expected %s' % (
                        s.prop, s.counts.get(what, 0), what, n, why))
        edir = os.path.join(HERE, 'evidence')
        os.makedirs(edir, exist_ok=True)
        replay = os.path.join(edir, s.prop + '.replay.txt')
        with open(replay, 'w') as f:
            for key, (where, msg, trace) in bad:
                f.write('%s:%s: in %s: %s\n  key: %s\n' % (where[0], where[1], where[2], msg, key))
                if len(where) > 3 and where[3]:
                    f.write('  inlined into: %s\n' % ' <- '.join('%s:%s %s' % c for c in where[3]))
                if trace:
                    f.write('  path (lines): %s\n' % ' -> '.join(map(str, trace)))
        for key, (where, msg, trace) in bad:
            print('%s:%s: in %s: %s [%s]' % (where[0], where[1], where[2], msg, key))
            if trace:
                print('    path (lines): %s' % ' -> '.join(map(str, trace[-40:])))
        for what, n in sorted(s.counts.items()):
            print('  analysed: %-60s %d' % (what, n))
        ev = {
            'property': s.prop, 'tier': s.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': ' '.join(s.rules) or 'static analysis',
                'measured': s.counts,
                'instances': s.samples,
                'source_hash': frontend.source_hash(),
            },
            'wall_s': round(time.time() - s.t0, 3),
            'violations': len(bad),
            'assumptions': s.assume,
        }
        with open(os.path.join(edir, s.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if bad:
            print('VIOLATION property=%s replay=%s' % (s.prop, replay))
            return 1
        print('OK property=%s (%.1fs)' % (s.prop, time.time() - s.t0))
        return 0


def main(argv):
    import importlib.util
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    path = os.path.join(HERE, 'checks', prop + '.py')
    spec = importlib.util.spec_from_file_location('check_' + prop, path)
    mod = importlib.util.module_from_spec(spec)
    rep = Report(prop, tier)
    try:
        spec.loader.exec_module(mod)
        mod.run(rep, tier)
        return rep.finish()
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error' % prop)
        return 3

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo from its source.

exit 0: holds on everything analysed (listed known findings are printed); exit 1: VIOLATION; exit 2: no answer.
"""
import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)$', line.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--list', action='store_true', help='print every finding, known or not')
    a = ap.parse_args()
    t0 = time.time()
    from sa import common
    try:
        mod = importlib.import_module('sa.props.%s' % a.prop)
        ctx = common.Ctx(a.tier)
        res = mod.run(ctx)
        selftest(mod, res)
        for name, minimum in getattr(mod, 'MINIMUM', {}).items():
            if res.counts.get(name, 0) < minimum:
                raise common.Broken('%s: %d instances analysed, at least %d confirmed by hand' % (
                    name, res.counts.get(name, 0), minimum))
        if len(ctx.failures) > 12:
            raise common.Broken('analysis failed on %d functions: %s' % (len(ctx.failures), list(ctx.failures.items())[:5]))
    except common.Broken as e:
        print('analysis broken: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        print('analysis broken')
        return 2
    known = known_findings(a.prop)
    new, old = [], []
    for f in res.findings:
        (old if f.key in known else new).append(f)
    for f in sorted(old, key=lambda f: f.key):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, known[f.key]))
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': mod.LEVEL,
        'coverage': dict(explanation=res.explanation or mod.EXPLANATION, counts=res.counts, rules=res.rules or mod.RULES,
                         samples=[{'group': k, 'items': v} for k, v in sorted(res.samples.items())],
                         findings=[f.as_dict() for f in new], modules_analysed=len(ctx.proj.modules),
                         functions_in_library=len(ctx.proj.functions), source_digest=ctx.proj.digest,
                         not_analysed=ctx.failures, known_findings=[f.key for f in old]),
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + res.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    evd = os.environ.get('SA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    evp = os.path.join(evd, '%s.json' % a.prop)
    with open(evp, 'w') as fh:
        json.dump(ev, fh, indent=1, default=str, sort_keys=True)
    print('%s %s: %s' % (a.prop, a.tier, ', '.join('%s=%s' % kv for kv in sorted(res.counts.items()))))
    for f in sorted(new, key=lambda f: f.key):
        print(f.text())
        print('   key: %s' % f.key)
        for p in f.path:
            print('      %s' % p)
        print('VIOLATION property=%s replay=%s' % (a.prop, evp))
    return 1 if new else 0


def selftest(mod, res):
    """every rule must match its positive example and stay silent on its negative one"""
    from sa import common
    if not getattr(mod, 'FIXTURE', None):
        return
    c = common.fix_ctx(mod.FIXTURE)
    r = mod.run(c, fixture=True)
    got = {(f.rule, f.where.split(':')[1]) for f in r.findings}
    want = set(map(tuple, mod.EXPECT))
    if got != want:
        raise common.Broken('self-test on fixtures/%s: missing %s, unexpected %s' % (
            mod.FIXTURE, sorted(want - got), sorted(got - want)))
    res.counts['selftest_positive_examples'] = len(want)


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of /repo's current tree by static analysis."""
import hashlib
import importlib
import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
t0 = time.time()

RULES = {}
for _m, _ps in (('source_coverage', 'C09 C10 C11'), ('visitor', 'C01 C02 C03 C04 C05 C06 C07 C08 C17 C18 C19 C20 C21'),
                 ('hints', 'C06 C08 C18 C21'), ('template', 'C08 C12 C13 C14 C16 C32'),
                 ('merge', 'C22 C23 C24 C25 C26 C27 C28 C30 C33'),
                 ('effects', 'C15'), ('serde', 'C29 C32'), ('plugin', 'C31 C32'), ('values', 'C36')):
    for _p in _ps.split():
        RULES.setdefault(_p, []).append(_m)

# Obligations of one property that another one rests on as well: (property, whose, obligation groups or None for all).
ALSO = (
    ('C01', 'C09', 'id-next location-entry zero-hits'), ('C01', 'C10', 'path-index path-slot path-location'), ('C01', 'C11', 'pruned'),
    ('C04', 'C17', None), ('C05', 'C02', None), ('C06', 'C07', 'state'), ('C08', 'C09', 'no-abort'), ('C08', 'C10', 'path-abort'),
    ('C10', 'C01', 'truthslot truthbranch'), ('C10', 'C20', 'all off'), ('C16', 'C14', 'runs different same nohash'),
    ('C17', 'C03', 'keep'), ('C18', 'C09', 'data'), ('C18', 'C10', 'path-location'),
    ('C32', 'C16', 'variable'),
    ('C20', 'C10', 'truth-entry path-truth-slot path-truth-kept init-b_t'),
)
for _p, _q, _g in ALSO:
    for _m in RULES[_q]:
        if _m not in RULES[_p]:
            RULES[_p].append(_m)


def concerns(prop, o):
    """Is the obligation part of the property's check?"""
    if o.prop == prop:
        return True
    g = o.key.split(':')[0]
    return any(p == prop and q == o.prop and (gs is None or g in gs.split()) for p, q, gs in ALSO)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        pass
    from rules import common
    ctx = None
    errs = []
    try:
        ctx = common.Ctx()
        for name in RULES[prop]:
            importlib.import_module('rules.' + name).check(ctx, prop)
    except (common.AnalysisError, common.extract.ExtractError) as ex:
        errs.append(('analysis', 'the property cannot be decided on this tree: %s' % ex))
    except Exception as ex:  # an unexpected construct: fail closed
        errs.append(('analysis', 'the analysis failed on this tree: %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc(limit=-6))))
    obs = [o for o in (ctx.obs if ctx else []) if concerns(prop, o)]
    if not obs and not errs:
        errs.append(('analysis', 'no obligation was generated'))
    known = []
    kf = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == prop]
    bad, seen = [], set()
    for o in obs:
        if o.ok:
            continue
        k = next((k for k in known if k['key'] == o.key), None)
        if k:
            if k['key'] not in seen:
                seen.add(k['key'])
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            continue
        bad.append(o)
    wall = time.time() - t0
    keys = {}
    for o in obs:
        keys.setdefault(o.key.split(':')[0], [0, 0])
        keys[o.key.split(':')[0]][0] += 1
        keys[o.key.split(':')[0]][1] += o.ok
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'proof',
        'coverage': {
            'obligations': len(obs) + len(errs), 'discharged': sum(o.ok for o in obs),
            'checker_cmd': 'python3 check.py ' + prop,
            'trusted_base': ['rustc nightly MIR construction (driver/main.rs)', 'abstract interpreter and library models (engine/)',
                             'the rules in %s' % ', '.join('rules/%s.py' % r for r in RULES[prop])],
            'explanation': 'obligations generated from the MIR of the current tree by abstract interpretation and decided by the rule',
            'functions_analysed': sorted(ctx.analysed) if ctx else [],
            'abstract_paths': ctx.paths if ctx else 0,
            'obligation_groups': {k: '%d/%d' % (v[1], v[0]) for k, v in sorted(keys.items())},
            'known_findings': sorted(seen),
            'samples': [{'key': o.key, 'where': o.where, 'ok': o.ok, 'detail': o.detail[:300]} for o in (obs[:3] + obs[len(obs) // 2:len(obs) // 2 + 3])],
        },
        'assumptions': ctx.notes if ctx else [],
        'wall_s': round(wall, 2),
        'violations': len(bad) + len(errs),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if bad or errs:
        rd = os.path.join(HERE, '.build', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, prop + '.txt')
        with open(rp, 'w') as f:
            for o in bad:
                f.write('property %s violated at %s\n  obligation %s\n  %s\n\n' % (prop, o.where, o.key, o.detail))
            for k, e in errs:
                f.write('%s: %s\n' % (k, e))
        n = 0
        for o in bad:
            if n < 12:
                print('%s: %s\n    %s\n    %s' % (prop, o.where, o.key, o.detail[:700]))
            n += 1
        if n > 12:
            print('... %d more in %s' % (n - 12, rp))
        for k, e in errs:
            print(prop + ': ' + e[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rp, HERE)))
        return 1
    print('OK property=%s obligations=%d functions=%d paths=%d known=%d %.1fs' % (
        prop, len(obs), len(ctx.analysed), ctx.paths, len(seen), wall))
    return 0


if __name__ == '__main__':
    import threading
    threading.stack_size(1 << 29)
    rc = [1]

    def go():
        rc[0] = main()
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])

"""Verdicts, known findings and evidence files."""
import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')
EVID = os.path.join(HERE, 'evidence')


class Finding:
    """key: stable identity of the failing construct (what a known-findings entry names)"""

    def __init__(self, key, site, what, detail=None):
        self.key = key
        self.site = site
        self.what = what
        self.detail = detail or []


class Result:
    def __init__(self, level='other'):
        self.level = level
        self.findings = []
        self.coverage = {}
        self.assumptions = []

    def add(self, key, site, what, detail=None):
        self.findings.append(Finding(key, site, what, detail))


def known(prop):
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                body = l[len('finding: property=%s ' % prop):]
                key, _, what = body.partition(' :: ')
                r[key.strip()] = what
    return r


def finish(prop, tier, seed, t0, res):
    os.makedirs(EVID, exist_ok=True)
    kn = known(prop)
    seen = {}
    new = []
    for f in res.findings:
        if f.key in kn:
            seen.setdefault(f.key, f)
        else:
            new.append(f)
    for k, f in seen.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': res.level, 'coverage': dict(res.coverage),
          'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if seen:
        ev['coverage']['known_findings'] = sorted(seen)
    with open(os.path.join(EVID, prop + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
        o.write('\n')
    rp = os.path.join(EVID, prop + '.violations.json')
    if os.path.exists(rp):
        os.remove(rp)
    if not new:
        print('property %s: held on everything analysed (%.0f s)' % (prop, time.time() - t0))
        return 0
    with open(rp, 'w') as o:
        json.dump([{'key': f.key, 'site': f.site, 'what': f.what, 'detail': f.detail} for f in new[:200]], o, indent=1, default=str)
        o.write('\n')
    done = set()
    for f in new:
        if f.key in done:
            continue
        done.add(f.key)
        if len(done) <= 12:
            print('%s: %s\n    at %s' % (prop, f.what, f.site))
            for d in f.detail[:6]:
                print('    %s' % d)
    print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1

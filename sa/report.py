import json, os, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    """collects what was analysed and what was found for one property"""

    def __init__(s, pid):
        s.pid = pid
        s.obl = []          # (rule, instance) decided
        s.viol = {}         # key -> dict
        s.counts = {}
        s.rules = []
        s.assume = []
        s.broken = []
        s.minimum = {}
        s.t0 = time.time()

    def rule(s, name, text, minimum=1):
        s.rules.append({'rule': name, 'text': text})
        s.minimum[name] = minimum
        s.counts.setdefault(name, 0)

    def ok(s, rule, inst):
        s.obl.append((rule, inst))
        s.counts[rule] = s.counts.get(rule, 0) + 1

    def bad(s, rule, inst, msg, at=None):
        """inst: stable identity of the failing construct (no line numbers)"""
        k = '%s|%s' % (rule, inst)
        if k not in s.viol:
            s.viol[k] = {'rule': rule, 'instance': inst, 'message': msg, 'at': where(at) if at is not None else ''}

    def check(s, cond, rule, inst, msg, at=None):
        s.ok(rule, inst)
        if not cond:
            s.bad(rule, inst, msg, at)
        return cond

    def fail(s, msg):
        s.broken.append(msg)


def where(i):
    if isinstance(i, str):
        return i
    if hasattr(i, 'line'):
        t = '%s:%d' % (i.file, i.line) if i.line else ''
        f = getattr(i, 'fn', None)
        if f is not None and hasattr(f, 'name'):
            t += ' in %s' % f.name
        if getattr(i, 'chain', ()):
            t += ' (inlined at %s)' % ' <- '.join('%s:%d' % c for c in i.chain)
        return t
    return str(i)


def known(pid):
    """known findings of this property: set of 'rule|instance' keys"""
    p = os.path.join(VERIF, 'known-findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                r = l.split(' ', 2)[2]
                k, _, txt = r.partition(' :: ')
                out[k.strip()] = txt
    return out


def finish(r, level, expl):
    kn = known(r.pid)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    for n, m in r.minimum.items():
        if r.counts.get(n, 0) < m:
            r.fail('rule %s matched %d instances, at least %d were confirmed by hand' % (n, r.counts.get(n, 0), m))
    new = [v for k, v in r.viol.items() if k not in kn]
    print('%s: %d rules, %d obligations over %d instances, %d findings (%d known)' % (
        r.pid, len(r.rules), len(r.obl), len({i for _, i in r.obl}), len(r.viol), len(r.viol) - len(new)))
    for x in r.rules:
        print('  rule %-26s %4d instances' % (x['rule'], r.counts.get(x['rule'], 0)))
    ev = {
        'property': r.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': {
            'explanation': expl,
            'rules': r.rules,
            'instances_per_rule': r.counts,
            'obligations': len(r.obl), 'discharged': len(r.obl) - len(r.viol) if len(r.obl) >= len(r.viol) else 0,
            'evaluations': len(r.obl), 'distinct_nontrivial': len(set(r.obl)),
            'rule': 'one obligation per rule instance found in the current source (function, call site, store or path exit)',
            'samples': ['%s: %s' % o for o in sorted(set(map(lambda o: (o[0], str(o[1])), r.obl)))][:400],
            'findings': list(r.viol.values()),
        },
        'assumptions': r.assume,
        'wall_s': round(time.time() - r.t0, 3),
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ep = os.path.join(VERIF, 'evidence', r.pid + '.json')
    json.dump(ev, open(ep, 'w'), indent=1)
    for k, v in r.viol.items():
        if k in kn:
            print('KNOWN-FINDING: property=%s %s: %s' % (r.pid, k, kn[k] or v['message']))
    for v in new:
        print('  FINDING [%s] %s: %s  at %s' % (v['rule'], v['instance'], v['message'], v['at']))
    if new:
        print('VIOLATION property=%s replay=%s' % (r.pid, ep))
        return 1
    if r.broken:
        for b in r.broken:
            print('ANALYSIS-BROKEN: %s' % b)
        return 2
    return 0

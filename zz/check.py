"""Command line: python3 -m zz.check <property> [quick|thorough]"""
import json, os, sys, time, traceback
from .ir import AnalysisError, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    def __init__(self):
        self.findings = []      # dict(kind, function, line, message, ...)
        self.errors = []        # str: the analysis could not decide something
        self.counts = {}        # measured on this run
        self.samples = []
        self.assumptions = []
        self.rule = ''

    def add(self, kind, function, line, message, **kw):
        f = dict(kind=kind, function=function, line=line, message=message); f.update(kw)
        self.findings.append(f)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def need(self, k, n):
        """analysis-broken guard: fewer instances than confirmed by hand"""
        if self.counts.get(k, 0) < n:
            self.errors.append('only %d %s analysed, at least %d expected' % (self.counts.get(k, 0), k, n))


def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known': out.append(d)
    return out


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from .registry import PROPS
    if prop not in PROPS:
        print('unknown property', prop); return 2
    res = Result()
    try:
        PROPS[prop](res, tier)
    except AnalysisError as e:
        res.errors.append(str(e))
    except Exception:
        res.errors.append('internal error: ' + traceback.format_exc())
    kf = known(prop)
    viol = []; seenk = set()
    uniq = {}
    for f in res.findings:
        k = (f['kind'], f['function'], f['line'], f['message'])
        uniq.setdefault(k, f)
    for f in uniq.values():
        m = [d for d in kf if d.get('function') == f['function'] and d.get('kind') == f['kind'] and d.get('message') == f['message']]
        if m:
            if m[0]['what'] not in seenk:
                seenk.add(m[0]['what']); print('KNOWN-FINDING: property=%s %s' % (prop, m[0]['what']))
        else: viol.append(f)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = dict(explanation=res.rule or 'static analysis', counts=res.counts, samples=res.samples[:12],
               findings=viol[:50], undecided=res.errors[:20], analysed_tree=REPO)
    for k, v in res.counts.items():
        if k not in cov: cov[k] = v
    doc = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 3),
               assumptions=res.assumptions, violations=len(viol))
    with open(os.path.join(ev, prop + '.json'), 'w') as fh: json.dump(doc, fh, indent=1, default=str)
    print('%s: %s' % (prop, ', '.join('%s=%s' % kv for kv in sorted(res.counts.items()))))
    for e in res.errors[:20]: print('UNDECIDED: ' + e)
    if viol:
        rp = os.path.join(ev, prop + '.replay.json')
        with open(rp, 'w') as fh: json.dump(viol, fh, indent=1, default=str)
        for f in viol[:25]:
            print('  %s:%s %s: [%s] %s%s' % (f.get('file', 'zzzjson.h'), f['line'], f['function'], f['kind'], f['message'],
                                            ' (entry %s)' % f['entry'] if f.get('entry') else ''))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if res.errors and not any(v for k, v in res.counts.items() if not k.endswith('_expected')):
        print('NO ANSWER: nothing of this property could be analysed'); return 2
    if res.errors: print('INCONCLUSIVE: the obligations listed above were not decided; no violation in the others')
    print('OK %s (%.1f s)' % (prop, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

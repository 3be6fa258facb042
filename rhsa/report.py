"""Result collection, known findings, evidence, exit code."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known-findings.txt')


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viols = {}
        self.counts = {}
        self.obl = 0
        self.samples = []
        self.assumptions = []
        self.explanation = ''
        self.functions = set()

    # an obligation examined
    def ob(self, kind, n=1):
        self.obl += n
        self.counts[kind] = self.counts.get(kind, 0) + n

    def count(self, kind, n):
        self.counts[kind] = n

    def fn(self, f):
        """a function whose body was analysed"""
        self.functions.add(getattr(f, 'p', f))

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def assume(self, s):
        self.assumptions.append(s)

    def viol(self, key, msg, where=''):
        """key: stable identity (no line numbers); where: file:line for the reader."""
        if key not in self.viols:
            self.viols[key] = (msg, where)

    def floor(self, kind, n):
        """Fail closed when fewer instances than confirmed by hand are seen."""
        if self.counts.get(kind, 0) < n:
            self.viol('floor:' + kind, 'only %d instances of "%s" were found, at least %d were expected: the anchors of this rule '
                      'have moved or disappeared, so the property is not established' % (self.counts.get(kind, 0), kind, n))

    def check(self, cond, key, msg, where=''):
        if not cond:
            self.viol(key, msg, where)
        return cond


def where(f, line=None):
    return '%s:%s (%s)' % (f.file, line if line is not None else f.line, f.p)


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                out[key[len('key='):]] = what
    return out


def run(pid, tier, rule, loader):
    t0 = time.time()
    R = Report(pid, tier)
    fatal = None
    try:
        P = loader()
        t1 = time.time()
        rule.check(P, R)
        R.count('functions in the program', len(P.fns))
    except Exception as e:  # fail closed
        fatal = traceback.format_exc()
        R.viol('analysis-error', 'the analysis could not be completed: %s: %s' % (type(e).__name__, str(e)[-3000:]))
    known = known_findings(pid)
    new = {k: v for k, v in R.viols.items() if k not in known}
    old = {k: v for k, v in R.viols.items() if k in known}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join('evidence', pid + '.violations.txt')
    level = getattr(rule, 'LEVEL', 'other')
    if getattr(R, 'functions', None):
        R.counts['functions analysed'] = len(R.functions)
    cov = {'explanation': (getattr(rule, 'EXPLANATION', '') or R.explanation).strip(), 'obligations': R.obl,
           'discharged': R.obl - min(R.obl, len(R.viols)), 'instances': R.counts, 'samples': R.samples or ['(none)'],
           'rule': getattr(rule, 'RULE', ''), 'known_findings_seen': sorted(old)}
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
          'assumptions': R.assumptions or ['rustc\'s MIR construction and the std/core/alloc models listed in rhsa/models.py are faithful'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    with open(os.path.join(HERE, replay), 'w') as f:
        for k, (m, w) in new.items():
            f.write('rule %s: %s\n  at %s\n  key=%s\n\n' % (pid, m, w or '-', k))
        if fatal:
            f.write(fatal)
    for k, (m, w) in old.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    for k, (m, w) in list(new.items())[:8]:
        print('%s %s\n    at %s [key=%s]' % (pid, m, w or '-', k))
    if len(new) > 8:
        print('... and %d more' % (len(new) - 8))
    print('%s: %d obligations over %d functions, %d new violation(s), %d known finding(s), %.1f s' %
          (pid, R.obl, len(R.functions), len(new), len(old), time.time() - t0))
    if fatal:
        print(fatal, file=sys.stderr)
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0

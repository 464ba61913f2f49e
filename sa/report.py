"""Collects obligations and violations of one property, prints the verdict and writes evidence."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """The analysis could not be carried out (an anchor is gone, a file does not parse)."""


class Report:
    def __init__(self, pid, tier, root):
        self.pid, self.tier, self.root = pid, tier, root
        self.t0 = time.time()
        self.obs = {}        # key -> dict(status, rule, where, detail)
        self.counts = {}
        self.notes = []
        self.samples = []
        self.rules = {}
        self.error = None
        self.explain = ''

    # ---------------------------------------------------------------- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, key, detail=None, where=None):
        self._put(rule, key, 'ok', detail, where)

    # rules whose violation is that something does not happen: not believed when the analysis lost track on the way
    lost, absence = None, ()

    def viol(self, rule, key, detail, where=None, func=None):
        if self.lost and rule in self.absence:
            return self.undecided(rule, key, '%s (but the analysis finds no value at %s)' % (detail, self.lost), where, func)
        self._put(rule, key, 'violation', detail, where, func)

    def undecided(self, rule, key, detail, where=None, func=None):
        self._put(rule, key, 'undecided', detail, where, func)

    def _put(self, rule, key, status, detail, where, func=None):
        k = (rule, str(key))
        old = self.obs.get(k)
        rank = {'ok': 0, 'undecided': 1, 'violation': 2}
        if old is not None and rank[old['status']] >= rank[status]:
            return
        self.obs[k] = dict(rule=rule, key=str(key), status=status, detail=detail,
                           where=where, function=func)

    def decide(self, rule, key, verdict, detail, where=None, func=None):
        """verdict True: holds; False: violated; None: undecided."""
        if verdict is True:
            self.ok(rule, key, detail, where)
        elif verdict is False:
            self.viol(rule, key, detail, where, func)
        else:
            self.undecided(rule, key, detail, where, func)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 40:
            self.samples.append(text)

    def broken(self, text):
        self.error = text

    def require(self, cond, text):
        if not cond:
            raise Broken(text)

    # ---------------------------------------------------------------- result
    def finish(self):
        known = load_known(self.pid)
        viols = [o for o in self.obs.values() if o['status'] == 'violation']
        undec = [o for o in self.obs.values() if o['status'] == 'undecided']
        ok = [o for o in self.obs.values() if o['status'] == 'ok']
        evdir = os.path.join(HERE, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        cov = dict(
            explanation=self.explain or 'static analysis of the current source; see rules',
            obligations=len(self.obs), discharged=len(ok), undecided=len(undec),
            violations=len(viols),
            rules=self.rules, counts=self.counts,
            samples=self.samples[:40] or [describe(o) for o in ok[:12]],
            undecided_list=[describe(o) for o in undec[:60]],
            violation_list=[describe(o) for o in viols[:60]],
            repo=self.root,
        )
        if self.error:
            cov['error'] = self.error
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
                  level='other', coverage=cov, wall_s=round(time.time() - self.t0, 2))
        with open(os.path.join(evdir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        print('%s: %d obligations, %d discharged, %d undecided, %d violations (%.1f s)' % (
            self.pid, len(self.obs), len(ok), len(undec), len(viols), time.time() - self.t0))
        for k, v in sorted(self.counts.items()):
            print('  %s: %s' % (k, v))
        for o in undec:
            print('UNDECIDED property=%s %s' % (self.pid, describe(o)))
        if self.error:
            print('ERROR property=%s analysis could not be carried out: %s' % (self.pid, self.error))
        fresh = 0
        for n, o in enumerate(viols):
            hit = [k for k in known if k['rule'] == o['rule'] and k['key'] == o['key']]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, describe(o)))
                continue
            path = os.path.join(evdir, '%s-violation-%d.json' % (self.pid, fresh))
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, rule=o['rule'], rule_text=self.rules.get(o['rule']),
                               key=o['key'], where=o['where'], function=o['function'],
                               detail=o['detail'],
                               command='python3 %s/check.py %s' % (HERE, self.pid)), f, indent=1, default=str)
            print('  ' + describe(o))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            fresh += 1
        sys.stdout.flush()
        if fresh:
            return 1
        if self.error:
            return 2
        return 0


def describe(o):
    s = '[%s] %s' % (o['rule'], o['key'])
    if o['where']:
        s += ' at ' + str(o['where'])
    if o['function']:
        s += ' in ' + str(o['function'])
    if o['detail']:
        s += ': ' + str(o['detail'])
    return s


def load_known(pid):
    """known_findings.txt: 'finding: property=<id> rule=<rule> key=<key> # text' entries suppress
    exactly that construct; 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith('finding:'):
            continue
        body = line[len('finding:'):].split(' # ')[0].strip()
        d = {}
        if 'property=' not in body or ' rule=' not in body or ' key=' not in body:
            continue
        head, key = body.split(' key=', 1)
        for w in head.split():
            k, _, v = w.partition('=')
            d[k] = v
        d['key'] = key.strip()
        if d.get('property') == pid:
            out.append(d)
    return out

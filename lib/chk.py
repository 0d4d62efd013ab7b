"""Common frame of all checks: reporting, known findings, evidence, exit status."""
import os, sys, json, time, traceback
import hf
from hf import VERIF, REPO, AnalysisBroken


def rel(p):
    return os.path.relpath(p, REPO) if p and p.startswith('/') else p


class Check:
    def __init__(self, pid, level='other'):
        self.pid = pid
        self.level = level
        self.viol = []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.obl = 0
        self.ok = 0
        self.undecided = 0
        self.sites = set()

    # an obligation is one (rule, site) instance that was decided
    def obligation(self, rule, site, good, msg='', file=None, line=None, key=None, path=None):
        self.obl += 1
        self.sites.add((rule, site))
        self.cov.setdefault('per_rule', {}).setdefault(rule, 0)
        self.cov['per_rule'][rule] += 1
        if good:
            self.ok += 1
            if len(self.samples) < 12 and not any(s.startswith(rule) for s in self.samples[-2:]):
                self.samples.append('%s: %s' % (rule, site))
        else:
            self.violation(rule, site, msg, file, line, key, path)

    def undecide(self, rule, site, why=''):
        self.undecided += 1
        self.cov.setdefault('undecided', [])
        if len(self.cov['undecided']) < 40:
            self.cov['undecided'].append('%s: %s %s' % (rule, site, why))

    def violation(self, rule, site, msg, file=None, line=None, key=None, path=None):
        k = key or '%s|%s' % (rule, site)
        if any(v['key'] == k for v in self.viol):
            return
        self.viol.append(dict(rule=rule, site=site, msg=msg, file=rel(file) if file else None, line=line, key=k, path=path))

    def floor(self, name, n, minimum):
        """measured instance count must not fall below what was confirmed by hand"""
        self.cov.setdefault('counts', {})[name] = n
        if n < minimum:
            raise AnalysisBroken('%s: only %d instances analysed (at least %d expected) - anchor lost' % (name, n, minimum))

    def finish(self):
        known = []
        kf = os.path.join(VERIF, 'known-findings.json')
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)).get('known', []) if k['property'] == self.pid]
        kk = {k['key']: k for k in known}
        new = []
        for v in self.viol:
            if v['key'] in kk:
                print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, kk[v['key']]['what'], v['key']))
            else:
                new.append(v)
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new):
            rp = os.path.join('evidence', 'replay', '%s-%d.txt' % (self.pid, i))
            with open(os.path.join(VERIF, rp), 'w') as fh:
                fh.write('property %s\nrule      %s\nsite      %s\nwhere     %s:%s\nmessage   %s\nkey       %s\n' % (
                    self.pid, v['rule'], v['site'], v['file'], v['line'], v['msg'], v['key']))
                if v['path']:
                    fh.write('path      %s\n' % v['path'])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            print('  %s:%s: [%s] %s: %s%s' % (v['file'], v['line'], v['rule'], v['site'], v['msg'],
                                              ('  path: ' + v['path']) if v['path'] else ''))
        cov = dict(self.cov)
        cov['obligations'] = self.obl
        cov['discharged'] = self.ok
        cov['distinct_sites'] = len(self.sites)
        cov['undecided_sites'] = self.undecided
        cov['samples'] = self.samples[:12]
        cov.setdefault('explanation', self.__doc__ or '')
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        print('%s: %d obligations at %d sites, %d discharged, %d undecided, %d known, %d violations (%.1fs)' % (
            self.pid, self.obl, len(self.sites), self.ok, self.undecided, len(self.viol) - len(new), len(new),
            time.time() - self.t0))
        return 1 if new else 0


def main(pid, fn, explanation, assumptions=()):
    c = Check(pid)
    c.cov['explanation'] = explanation
    c.assumptions = list(assumptions)
    try:
        fn(c)
        if c.obl == 0:
            raise AnalysisBroken('no obligation was generated')
        rc = c.finish()
    except AnalysisBroken as ex:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, ex))
        rc = 2
        if c.viol:
            rc = c.finish()
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        rc = 2
        if c.viol:
            rc = c.finish() or 2
    sys.stdout.flush()
    sys.exit(rc)

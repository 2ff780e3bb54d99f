#!/usr/bin/env python3
"""Decide one property: build the harness against the current /repo, run its monitored workload, judge the reports.
usage: check.py <ID> [--tier quick|thorough] | check.py --replay <file> | check.py --build"""
import fnmatch, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import build as B
from plan import PLAN, RULES

SAN = {
  'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=66:handle_abort=1:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:external_symbolizer_path=/usr/bin/llvm-symbolizer:max_allocation_size_mb=6000:malloc_context_size=20:quarantine_size_mb=64',
  'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=66:symbolize=1:external_symbolizer_path=/usr/bin/llvm-symbolizer',
  'TSAN_OPTIONS': 'halt_on_error=0:exitcode=0:ignore_noninstrumented_modules=1:report_signal_unsafe=0:history_size=4:external_symbolizer_path=/usr/bin/llvm-symbolizer:suppressions=%s/tsan.supp' % HERE,
}
def env(scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('ASAN_', 'UBSAN_', 'TSAN_', 'LSAN_', 'QT_', 'http_', 'https_', 'HTTP_', 'HTTPS_'))}
    e.update(SAN); e['OPENSSL_CONF'] = HERE + '/openssl.cnf'; e['TMPDIR'] = scratch; e['HOME'] = scratch; e['LC_ALL'] = 'C.UTF-8'; e['TZ'] = 'UTC'
    return e

def known_findings():
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def crash_key(err):
    """Kind of failure and the innermost library frame."""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err) or re.search(r'ERROR: (\w+Sanitizer: [\w-]+)', err)
    if m: kind = m.group(1)
    m2 = re.search(r'runtime error: (.*)', err)
    if m2: kind = 'ub-' + re.sub(r'[^a-z]+', '-', re.sub(r"'[^']*'|0x[0-9a-f]+|-?\d+", '', m2.group(1).lower()))[:50].strip('-')
    m3 = re.search(r'ASSERT(?: failure in [^:]*)?: "([^"]*)"', err)
    if m3: kind = 'assert'
    frame = None
    for m in re.finditer(r'^\s*#\d+ 0x[0-9a-f]+ in (.+?) (\S*/pillowcore/\S+?)(?::\d+)*$', err, re.M):
        frame = re.sub(r'\(.*', '', m.group(1)); break
    return 'crash:%s:%s' % (kind or 'signal', frame or 'outside'), (m2.group(0) if m2 else m3.group(0) if m3 else kind)

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viol = []      # dicts: prog, family, index, key, detail
        self.suspect = []   # stalls and hangs to confirm
        self.counts = {}; self.distinct = set(); self.samples = []; self.cov = {}; self.edges = {}
        self.cases = 0; self.warnings = 0; self.errors = []; self.lock = threading.Lock(); self.races = {}; self.scratch = None

    def shard(self, entry, exe, i, n, budget, only=None, slow=1, confirm=None):
        prog, variant = entry['prog'], entry.get('variant', 'asan')
        start = -1; restarts = 0; t0 = time.time()
        while True:
            sc = tempfile.mkdtemp(prefix='s', dir=self.scratch); os.chmod(sc, 0o755)
            out, cur = sc + '.out', sc + '.cur'
            cmd = [exe, '--prop', self.prop, '--tier', self.tier, '--seed', str(self.seed), '--shard', str(i), '--shards', str(n), '--start', str(start),
                   '--out', out, '--cur', cur, '--scratch', sc, '--slow', str(slow), '--budget', '%d' % max(1, budget - (time.time() - t0))]
            if only: cmd += ['--only', only]
            errp = sc + '.err'
            with open(errp, 'wb') as ef:
                try: rc = subprocess.run(cmd, stdout=ef, stderr=ef, env=env(sc), cwd=sc, timeout=max(60, budget - (time.time() - t0)) + 300 * slow).returncode
                except subprocess.TimeoutExpired: rc = 'timeout'
            err = open(errp, 'rb').read().decode(errors='replace')
            ended = False; hang = rc == -14; mine = []; sus = []
            if os.path.exists(out):
                for l in open(out, 'rb'):
                    try: r = json.loads(l.decode('latin-1'))
                    except ValueError: continue
                    if r['t'] == 'viol': mine.append(r)
                    elif r['t'] == 'stall': sus.append(r)
                    elif r['t'] == 'hang': hang = True
                    elif r['t'] == 'end': ended = True
                    elif r['t'] == 'stats' and not confirm:
                        with self.lock:
                            self.cases += r['cases']; self.warnings += r['warnings']
                            for k, v in r['counts'].items(): self.counts[k] = self.counts.get(k, 0) + v
                            self.distinct.update(r['distinct'])
                            if len(self.samples) < 12: self.samples += r['samples'][:2]
                            if r['cov']:
                                self.cov[prog] = self.cov.get(prog, 0) | int(r['cov'], 16); self.edges[prog] = r['edges']
            c = open(cur).read().split() if os.path.exists(cur) else []
            g, fam, idx = (int(c[0]), c[1], int(c[2])) if len(c) == 3 else (-1, None, None)
            with self.lock:
                for r in mine: self.viol.append(dict(prog=prog, variant=variant, family=r['family'], index=r['index'], key=r['key'], detail=r['detail']))
                for r in sus:
                    d = dict(prog=prog, variant=variant, family=r['family'], index=r['index'], key=r['key'], detail=r['detail'])
                    (self.viol if confirm else self.suspect).append(d)
            if variant == 'tsan': self.tsan(err, prog, variant, fam, idx)
            shutil.rmtree(sc, ignore_errors=True)
            if ended: return
            if fam is None:
                with self.lock: self.errors.append('%s shard %d died before its first case (rc=%s): %s' % (prog, i, rc, err[-1500:]))
                return
            if hang or rc == 'timeout':
                d = dict(prog=prog, variant=variant, family=fam, index=idx, key='hang:' + fam, detail='the case did not return (busy or blocked)')
                with self.lock: (self.viol if confirm else self.suspect).append(d)
            elif rc == -9:
                with self.lock: self.errors.append('%s shard %d was killed in case %s:%s' % (prog, i, fam, idx))
                return
            else:
                k, what = crash_key(err)
                at = re.search(r'(==\d+==ERROR|runtime error|ASSERT)', err)
                with self.lock: self.viol.append(dict(prog=prog, variant=variant, family=fam, index=idx, key=k, detail='rc=%s %s\n%s' % (rc, what, err[max(0, at.start() - 200) if at else -3000:][:3500])))
            if confirm or only: return
            if hang and sum(x['key'].startswith('hang:') for x in self.suspect) >= 2: return # enough to confirm
            restarts += 1; start = g
            if restarts > 6 or time.time() - t0 > budget: return

    def tsan(self, err, prog, variant, fam, idx):
        for m in re.finditer(r'WARNING: ThreadSanitizer: ([^\n(]*).*?(?:==================|\Z)', err, re.S):
            text = m.group(0); fr = re.search(r'#\d+ (\S.*?) (\S*/pillowcore/\S+?)(?::\d+)*(?: \(|$)', text, re.M)
            if not fr: continue
            with self.lock: self.viol.append(dict(prog=prog, variant=variant, family=fam, index=idx, key='tsan:%s:%s' % (m.group(1).strip().replace(' ', '-'), re.sub(r'\(.*', '', fr.group(1))), detail=text[:3500]))

    def go(self, plan, level):
        t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='pv', dir='/tmp'); os.chmod(self.scratch, 0o711)
        try:
            exes = {}
            for e in plan: exes[(e['prog'], e.get('variant', 'asan'))] = B.build(e['prog'], e.get('variant', 'asan'))
            tb = time.time() - t0
            total = 420 if self.tier == 'quick' else 2700
            for e in plan:
                n = e.get('shards', 8)
                ts = [threading.Thread(target=self.shard, args=(e, exes[(e['prog'], e.get('variant', 'asan'))], i, n, total / len(plan))) for i in range(n)]
                [t.start() for t in ts]; [t.join() for t in ts]
            # Confirm stalls and hangs alone, with three times the patience.
            done, tries = set(), {}
            for s in self.suspect:
                if self.fresh(): break # the verdict is clear
                k = (s['prog'], s['family'], s['key'])
                if k in done or tries.get(k, 0) >= 2 or len(tries) > 4 or time.time() - t0 > 700 + (self.tier != 'quick') * 3000: continue
                tries[k] = tries.get(k, 0) + 1; e = [e for e in plan if e['prog'] == s['prog']][0]
                for attempt in range(1):
                    before = len(self.viol)
                    self.shard(e, exes[(e['prog'], e.get('variant', 'asan'))], 0, 1, 60, only='%s:%d' % (s['family'], s['index']), slow=2, confirm=True)
                    if len(self.viol) > before: done.add(k)
                    else: self.counts['stalls_not_confirmed'] = self.counts.get('stalls_not_confirmed', 0) + 1
            return self.report(level, t0, tb)
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def fresh(self):
        known = [k for k in known_findings() if k[0] == self.prop]
        return [v for v in self.viol if not any(fnmatch.fnmatchcase(v['family'] + '/' + v['key'], k[1]) for k in known)]

    def report(self, level, t0, tb):
        known = [k for k in known_findings() if k[0] == self.prop]
        new, seen = [], {}
        for v in self.viol:
            for k in known:
                if fnmatch.fnmatchcase(v['family'] + '/' + v['key'], k[1]): seen[k] = v; break
            else: new.append(v)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, wall_s=round(time.time() - t0, 1), coverage=dict(
            evaluations=self.cases, distinct_nontrivial=len(self.distinct), rule=RULES.get(self.prop, 'a case counts when it ran to its end with the monitor attached; signatures are hashes of the workload shape'),
            samples=self.samples[:8] or ['none'], observed=self.counts,
            library_edges={p: '%d of %d' % (bin(self.cov[p]).count('1'), self.edges[p]) for p in self.cov}, qt_warnings=self.warnings, build_s=round(tb, 1),
            violations=len(new), known_findings=len(seen)))
        os.makedirs(V + '/evidence/replay', exist_ok=True)
        with open('%s/evidence/%s.json' % (V, self.prop), 'w') as f: json.dump(ev, f, indent=1)
        for k in known:
            print('KNOWN-FINDING: property=%s %s%s' % (self.prop, k[2], '' if k in seen else ' (not reached in this run)'))
        if new:
            shown = set(); k = 0
            for v in new:
                if v['key'] in shown: continue
                shown.add(v['key']); k += 1
                p = '%s/evidence/replay/%s-%d.json' % (V, self.prop, k)
                with open(p, 'w') as f: json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, **v), f, indent=1)
                print('  %s:%d %s: %s' % (v['family'], v['index'] if v['index'] is not None else -1, v['key'], v['detail'][:1500]))
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
                if k >= 8: break
            return 1
        for e in self.errors: print('ERROR: ' + e)
        if self.errors: return 2
        if not self.cases or not self.distinct or not self.counts and not self.cases:
            print('ERROR: nothing was observed'); return 2
        print('%s: held on %d cases (%d distinct), %s, %.0f s (build %.0f s)' % (self.prop, self.cases, len(self.distinct), ' '.join('%s=%d' % kv for kv in sorted(self.counts.items())), time.time() - t0, tb))
        return 0

def main():
    a = sys.argv[1:]
    try:
        if a[0] == '--build':
            seen = set()
            for p in PLAN.values():
                for e in p['run']:
                    k = (e['prog'], e.get('variant', 'asan'))
                    if k not in seen: seen.add(k); print(B.build(*k))
            return 0
        if a[0] == '--replay':
            r = json.load(open(a[1])); e = [e for e in PLAN[r['property']]['run'] if e['prog'] == r['prog']][0]
            run = Run(r['property'], r['tier'], r['seed']); run.scratch = tempfile.mkdtemp(prefix='pv', dir='/tmp')
            try: run.shard(e, B.build(r['prog'], r['variant']), 0, 1, 300, only='%s:%d' % (r['family'], r['index']), slow=2, confirm=True)
            finally: shutil.rmtree(run.scratch, ignore_errors=True)
            for v in run.viol: print('  %s:%s %s: %s\nVIOLATION property=%s replay=%s' % (v['family'], v['index'], v['key'], v['detail'], r['property'], a[1]))
            return 1 if run.viol else 0
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a: tier = a[a.index('--tier') + 1]
        seed = int(os.environ.get('VERIF_SEED', '1'))
        return Run(a[0], tier, seed).go(PLAN[a[0]]['run'], PLAN[a[0]].get('level', 'exploration'))
    except B.BuildError as e:
        print('ERROR: build failed: ' + str(e)[-4000:]); return 2

if __name__ == '__main__':
    rc = main(); sys.stdout.flush(); sys.exit(rc)

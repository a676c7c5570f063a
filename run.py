#!/usr/bin/env python3
"""Driver of the checks.

  run.py check <id>        decide a property (VERIF_TIER=quick|thorough); rewrites evidence/<id>.json
  run.py replay <file>     replay a violation reported by a check
  run.py list [<id>]       what a check explores
"""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('XMEM_REPO', '/repo')
sys.path.insert(0, VERIF)
from checks import UNITS, CHECKS  # noqa: E402

SEQ_FLAGS = ['-O1', '-g', '-fsanitize=thread', '-fno-allocation-dce', '-fno-lifetime-dse', '-Wno-tsan', '-w']
VALIDATION = ('Every transition is an execution of the code of /repo compiled for this run, compared with the reference model at that step; there is no '
              'separate model of the code. traces_validated_against_impl counts histories of visited states which were executed again on the real code '
              'from the initial state to their end without saving or restoring, and led to the same state (this validates the search).')
NJOBS = os.cpu_count() or 4


class EngineError(Exception):
    pass


class Builder:
    def __init__(self, tmp):
        self.tmp = tmp
        self.locks, self.done, self.guard = {}, {}, threading.Lock()

    def once(self, key, fn):
        with self.guard:
            lock = self.locks.setdefault(key, threading.Lock())
        with lock:
            if key not in self.done:
                try:
                    self.done[key] = fn()
                except Exception as e:  # remembered: everybody who needs it fails
                    self.done[key] = e
            r = self.done[key]
            if isinstance(r, Exception):
                raise r
            return r

    def cc(self, cmd, what):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise EngineError('%s does not compile:\n%s' % (what, p.stdout[:6000]))

    def engine(self, name):
        def make():
            o = os.path.join(self.tmp, 'engine_%s.o' % name)
            self.cc(['g++', '-std=c++17', '-O2', '-g', '-w', '-c', os.path.join(VERIF, 'engine', name + '.cpp'), '-o', o], 'engine ' + name)
            return o
        return self.once('engine:' + name, make)

    def unit(self, name):
        u = UNITS[name]

        def make():
            eng = self.engine(u['engine'])
            o, b = os.path.join(self.tmp, name + '.o'), os.path.join(self.tmp, name)
            cmd = ['g++', '-std=' + u.get('std', 'c++17')] + SEQ_FLAGS + ['-I' + os.path.join(REPO, 'code')]
            cmd += ['-D' + d for d in u.get('defs', [])] + u.get('flags', [])
            self.cc(cmd + ['-c', os.path.join(VERIF, 'harness', u['src']), '-o', o], 'harness ' + name)
            self.cc(['g++', o, eng, '-o', b, '-lpthread'], 'harness ' + name)
            return b
        return self.once('unit:' + name, make)

    def configs(self, name):
        def get():
            b = self.unit(name)
            p = subprocess.run([b, '--list'], stdout=subprocess.PIPE, text=True, timeout=60)
            if p.returncode:
                raise EngineError('%s --list failed' % name)
            return p.stdout.split('\n')[:-1]
        return self.once('configs:' + name, get)


def select(names, job, tier):
    out = []
    for i, n in enumerate(names):
        short = n.split(': ', 1)[-1]
        deep = short.startswith('deep')
        if deep and tier == 'quick' and not job.get('deep_in_quick'):
            continue
        if 'only' in job and not any(short.startswith(x) or short.startswith('deep: ' + x) for x in job['only']):
            continue
        if any(short.startswith(x) for x in job.get('skip', [])):
            continue
        out.append((i, n))
    return out


def run_config(builder, job, unit, idx, name, tier, stop, deadline):
    if stop.is_set():
        return None
    b = builder.unit(unit)
    left = deadline - time.time()
    cap = job.get('secs', {}).get(tier, 60 if tier == 'quick' else 400)
    if left < 4:
        return {'unit': unit, 'idx': idx, 'config': name, 'skipped': True}
    cap = max(2, min(cap, left))
    out = os.path.join(builder.tmp, '%s.%d.json' % (unit, idx))
    args = [b, '--config', str(idx), '--max-secs', '%.0f' % cap, '--cats', job['cats'], '--out', out] + job.get('args', {}).get(tier, [])
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=cap + 120, errors='replace')
    except subprocess.TimeoutExpired:
        raise EngineError('%s: no answer' % ' '.join(args))
    if p.returncode or not os.path.exists(out):
        raise EngineError('%s: exit %d\n%s' % (' '.join(args), p.returncode, p.stdout[-3000:]))
    with open(out) as f:
        r = json.load(f)
    r['unit'], r['idx'] = unit, idx
    return r


def matches(cats, cat):
    pats = cats.split(',')
    at = cat.find('@')
    base, group = (cat, '') if at < 0 else (cat[:at], cat[at:])
    return 'all' in pats or cat in pats or base in pats or (group and group in pats)


def confirm(builder, r, f):
    """Replays the failing history in a fresh process."""
    b = builder.unit(r['unit'])
    args = [b, '--config', str(r['idx']), '--replay', ','.join(str(x) for x in f['ops'])]
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, errors='replace')
    except subprocess.TimeoutExpired:
        return False, 'the replay does not end'
    return p.returncode == 1 and 'VIOLATED' in p.stdout, p.stdout


def check(pid, tier, seed):
    t0 = time.time()
    budget = 600 if tier == 'quick' else 780
    deadline = t0 + budget
    spec = CHECKS[pid]
    tmp = tempfile.mkdtemp(prefix='xmemverif.')
    results, errors, violations, skipped = [], [], [], []
    try:
        builder = Builder(tmp)
        stop = threading.Event()
        with cf.ThreadPoolExecutor(NJOBS) as ex:
            # build everything first
            units = sorted({u for j in spec['jobs'] if tier in j.get('tiers', ('quick', 'thorough')) for u in j['units']})
            futs = {ex.submit(builder.configs, u): u for u in units}
            for f in cf.as_completed(futs):
                try:
                    f.result()
                except Exception as e:
                    errors.append(str(e))
            tasks = []
            for j in spec['jobs']:
                if tier not in j.get('tiers', ('quick', 'thorough')):
                    continue
                for u in j['units']:
                    try:
                        names = builder.configs(u)
                    except Exception:
                        continue
                    for idx, name in select(names, j, tier):
                        tasks.append((j.get('prio', 0), j, u, idx, name))
            tasks.sort(key=lambda t: -t[0])
            futs = {ex.submit(run_config, builder, j, u, idx, name, tier, stop, deadline): j for _, j, u, idx, name in tasks}
            for f in cf.as_completed(futs):
                j = futs[f]
                try:
                    r = f.result()
                except Exception as e:
                    errors.append(str(e))
                    continue
                if r is None:
                    continue
                if r.get('skipped'):
                    skipped.append('%s: %s' % (r['unit'], r['config']))
                    continue
                results.append(r)
                for x in r['failures']:
                    if x['cat'].split('@')[0] == 'engine':
                        errors.append('%s: %s' % (r['config'], x['msg']))
                        continue
                    if not matches(j['cats'], x['cat']):
                        continue
                    ok, log = confirm(builder, r, x)
                    if not ok:
                        errors.append('%s: a failure could not be reproduced: %s %s\n%s' % (r['config'], x['cat'], x['msg'], log[-2000:]))
                        continue
                    violations.append((r, x, log))
                    stop.set()
        total = {k: sum(r[k] for r in results) for k in ('states', 'transitions')}
        cov = {
            'states': total['states'],
            'transitions': total['transitions'],
            'traces_validated_against_impl': sum(r.get('validated', 0) for r in results),
            'validation': spec.get('validation', VALIDATION),
            'configurations': len(results),
            'exhaustive': bool(results) and not errors and not skipped and not violations and all(r['complete'] for r in results),
            'bounds': spec['bounds'],
            'technique': spec['technique'],
            'not_explored_for_lack_of_time': skipped,
            'runs': [{k: r.get(k) for k in ('unit', 'config', 'states', 'transitions', 'complete', 'stop_reason', 'depth_complete', 'outcomes', 'bound', 'wall_s')} for r in sorted(results, key=lambda r: (r['unit'], r['idx']))],
            'samples': [{'config': r['config'], 'history': s.get('history')} for r in results[:4] for s in r.get('samples', [])[:1]],
        }
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for r in sorted(results, key=lambda r: (r['unit'], r['idx'])):
            print('%-28s %-60s states %9d transitions %10d %s' % (r['unit'], r['config'].split(': ', 1)[-1][:60], r['states'], r['transitions'], 'complete' if r['complete'] else 'stopped: ' + r['stop_reason']))
        if violations:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            for n, (r, x, log) in enumerate(violations[:4]):
                path = os.path.join(d, '%s.%d.json' % (pid, n))
                with open(path, 'w') as f:
                    json.dump({'property': pid, 'unit': r['unit'], 'config': r['config'], 'config_index': r['idx'], 'category': x['cat'], 'message': x['msg'], 'ops': x['ops'], 'history': x['history'], 'log': log}, f, indent=1)
                print('%s: %s (%s)' % (r['config'], x['msg'], x['cat']))
                print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        if errors:
            for e in errors[:5]:
                print('ERROR: ' + e)
            return 2
        if not results:
            print('ERROR: nothing was explored')
            return 2
        for line in known_findings(pid):
            print(line)
        print('%s holds: %d configurations, %d states, %d transitions, %.0f s' % (pid, len(results), total['states'], total['transitions'], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for l in f:
                if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                    out.append(l.strip())
    except FileNotFoundError:
        pass
    return out


def replay(path):
    with open(path) as f:
        v = json.load(f)
    tmp = tempfile.mkdtemp(prefix='xmemverif.')
    try:
        b = Builder(tmp)
        r = {'unit': v['unit'], 'idx': v['config_index']}
        ok, log = confirm(b, r, {'ops': v['ops']})
        print(log)
        return 1 if ok else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == 'check':
        return check(a[1], tier, seed)
    if len(a) == 2 and a[0] == 'replay':
        return replay(a[1])
    if a and a[0] == 'list':
        for pid, s in CHECKS.items():
            if len(a) == 1 or a[1] == pid:
                print(pid, s['technique'])
                for j in s['jobs']:
                    print('   ', j)
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())

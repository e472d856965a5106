#!/usr/bin/env python3
"""Decides one property: builds /repo's working tree with monitors, runs the
workload drivers, and reports what the monitors saw.

usage: vrun.py CNN [--tier quick|thorough] [--seed N] [--case N [--run K]] [--keep]
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
sys.path.insert(0, HERE)
from props import PROPS, MODELS2, MODELS3  # noqa: E402

SAN = {
    'asan': '-O2 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all',
    'tsan': '-O1 -g -fno-omit-frame-pointer -fsanitize=thread',
    'plain': '-O2 -g',
    'o0': '-O0 -g',
    'cover': '-O1 -g --coverage',
}
LINK = {
    'asan': ['-fsanitize=address,undefined'],
    'tsan': ['-fsanitize=thread'],
    'plain': [],
    'o0': [],
    'cover': [],
}


class Trouble(Exception):
    """The check itself could not be carried out."""


def sh(cmd, env=None, timeout=600, cwd=None):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Trouble('timed out: ' + ' '.join(cmd))
    return p.returncode, out


class Builder:
    def __init__(self, work):
        self.work = work
        self.errors = []
        self.extra = {}     # further flags of the FMUs

    def fmus(self, ver, flavour, models):
        b = os.path.join(self.work, 'fmu%d-%s' % (ver, flavour))
        env = dict(os.environ, CC=os.path.join(HERE, 'ccwrap'), VERIF_EXTRA_CFLAGS=SAN[flavour] + self.extra.get(flavour, ''))
        env.pop('CFLAGS', None)
        rc, out = sh(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DFMI_VERSION=%d' % ver, '-DFMI_ARCHITECTURE=x86_64'], env)
        if rc == 0:
            rc, out = sh(['ninja', '-C', b] + list(models), env)
        if rc:
            self.errors.append('building the FMUs failed:\n' + out[-3000:])

    def harness(self, src, flavour, obj, extra):
        rc, out = sh(['g++', '-std=c++17', '-O1', '-g', '-Wall', '-Wextra', '-I', HARNESS, '-I', os.path.join(HARNESS, 'fmi')] + extra +
                     ['-c', src, '-o', obj])
        if rc:
            self.errors.append('compiling %s failed:\n%s' % (src, out[-3000:]))

    def repo_c(self, src, flavour, obj):
        rc, out = sh([os.path.join(HERE, 'ccwrap'), '-std=gnu11', '-I', os.path.join(REPO, 'include'), '-c', src, '-o', obj],
                     dict(os.environ, VERIF_EXTRA_CFLAGS=SAN[flavour]))
        if rc:
            self.errors.append('compiling %s failed:\n%s' % (src, out[-3000:]))


def parallel(jobs):
    ts = [threading.Thread(target=f, args=a) for f, a in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def load_known():
    """Lines: known: property=CNN match=/regex/ what fails"""
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)$', line.strip())
            if m:
                res.append((m.group(1), re.compile(m.group(2), re.S), m.group(3)))
    return res


def build(cfg, work):
    b = Builder(work)
    if cfg.get('fortify'):
        b.extra['asan'] = ' -fstrict-flex-arrays=3 -include ' + os.path.join(HARNESS, 'fortify.h')
    jobs, need2, need3 = [], {}, {}
    for r in cfg['runs']:
        fl = r.get('flavour', 'asan')
        for ver, need, dflt in ((2, need2, MODELS2), (3, need3, MODELS3)):
            ms = r.get('models%d' % ver, r.get('models', None))
            ms = dflt if ms is None else [m for m in ms if m in dflt]
            if ver not in r.get('vers', (2, 3)):
                ms = []
            need.setdefault(fl, set()).update(ms)
    for ver, need in ((2, need2), (3, need3)):
        for fl, ms in need.items():
            if ms:
                jobs.append((b.fmus, (ver, fl, sorted(ms))))
    seen = set()
    for r in cfg['runs']:
        fl = r.get('flavour', 'asan')
        hx = ['-fsanitize=thread'] if fl == 'tsan' else []
        for s in [r['driver'], 'common.cpp'] + r.get('sources', []):
            key = (s, fl == 'tsan', tuple(r.get('cflags', [])))
            if key in seen:
                continue
            seen.add(key)
            jobs.append((b.harness, (os.path.join(HARNESS, s), fl, os.path.join(work, '%s.%d.o' % (s, fl == 'tsan')), hx + r.get('cflags', []))))
        for s in r.get('repo_sources', []):
            key = ('repo', s, fl)
            if key in seen:
                continue
            seen.add(key)
            jobs.append((b.repo_c, (os.path.join(REPO, s), fl, os.path.join(work, os.path.basename(s) + '.' + fl + '.o'))))
    parallel(jobs)
    if b.errors:
        raise Trouble('\n'.join(b.errors))
    for k, r in enumerate(cfg['runs']):
        fl = r.get('flavour', 'asan')
        t = int(fl == 'tsan')
        objs = [os.path.join(work, '%s.%d.o' % (s, t)) for s in [r['driver'], 'common.cpp'] + r.get('sources', [])]
        objs += [os.path.join(work, os.path.basename(s) + '.' + fl + '.o') for s in r.get('repo_sources', [])]
        rc, out = sh(['g++', '-rdynamic', '-o', os.path.join(work, 'drv%d' % k)] + objs + LINK[fl] + ['-ldl', '-lpthread'] + r.get('libs', []))
        if rc:
            raise Trouble('linking failed:\n' + out[-3000:])
        if r.get('prepare'):
            r['extra'] = r['prepare'](work, fl)


def drive(cfg, k, work, args, case=None, seed=None):
    r = cfg['runs'][k]
    fl = r.get('flavour', 'asan')
    out = os.path.join(work, 'out%d%s.jsonl' % (k, '' if case is None else '-case%d' % case))
    if os.path.exists(out):
        os.remove(out)
    scratch = os.path.join(work, 'run%d' % k)
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ)
    leaks = 1 if r.get('leaks') else 0
    env['ASAN_OPTIONS'] = 'detect_leaks=%d:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:print_legend=0:max_allocation_size_mb=4096' % leaks
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
    env['TSAN_OPTIONS'] = 'exitcode=99:halt_on_error=1:report_signal_unsafe=0'
    env['LSAN_OPTIONS'] = 'exitcode=99'
    env.update(r.get('env', {}))
    cmd = r.get('wrapper', []) + [os.path.join(work, 'drv%d' % k), '--property', cfg['id'], '--tier', args.tier, '--seed', str(args.seed),
           '--fmus2', os.path.join(work, 'fmu2-' + fl, 'temp'), '--fmus3', os.path.join(work, 'fmu3-' + fl, 'temp'),
           '--scratch', scratch, '--out', out, '--extra', r.get('extra', ''), '--jobs', str(r.get('jobs', args.jobs))]
    if case is not None:
        cmd += ['--case', str(case)]
    late = False
    p = subprocess.Popen(cmd, env=env, cwd=scratch, start_new_session=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    try:
        txt, _ = p.communicate(timeout=cfg.get('timeout', 700 if args.tier == 'quick' else 5400))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        txt, _ = p.communicate()
        late = True
    recs = []
    if os.path.exists(out):
        for line in open(out, errors='replace'):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    if late and not any(x['kind'] in ('violation', 'crash') for x in recs):
        raise Trouble('driver ran out of time')
    return p.returncode, txt, recs


def summarize_crash(rec):
    """A stable one-line description of a sanitizer report, crash or hang."""
    d = rec['detail']
    first = d.split('\n', 1)[0]
    if rec['key'] == 'hang':
        return 'call does not return: ' + first
    m = re.search(r'(ERROR: \w+Sanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|runtime error: [^\n]*)', d)
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*/(\w+\.c):(\d+)', d)
    if not m:
        # memcheck
        m = re.search(r'==\d+== ((?:Invalid|Use of|Conditional|Syscall param|Source and dest)[^\n]*)', d)
        frames = re.findall(r'==\d+==\s+(?:at|by) 0x[0-9A-F]+: (\w+) \((\w+\.c):(\d+)\)', d)
    head = re.sub(r'0x[0-9a-f]+', '0x..', m.group(1)) if m else 'process died: ' + first
    where = ' in ' + ' < '.join(f[0] for f in frames[:3]) if frames else ''
    return (head[:160] + where + ' (' + first + ')')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--case', type=int)
    ap.add_argument('--run', type=int, default=0)
    ap.add_argument('--only', type=int, help='only this run')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--keep', action='store_true')
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    cfg = PROPS[args.property]
    t0 = time.time()
    base = os.path.join(VERIF, '.work')
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=args.property + '-', dir=base)
    try:
        return check(cfg, work, args, t0)
    except Trouble as e:
        print('ERROR of the check %s: %s' % (args.property, e))
        return 2
    finally:
        if not args.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)


def check(cfg, work, args, t0):
    pid = cfg['id']
    build(cfg, work)
    if args.case is not None:
        rc, txt, recs = drive(cfg, args.run, work, args, case=args.case)
        print(txt)
        for r in recs:
            if r['kind'] in ('violation', 'broken', 'crash'):
                print(r['key'], r['detail'])
        print('driver exit code', rc)
        return 1 if rc else 0
    known = [k for k in load_known() if k[0] == pid]
    counts, features, samples, viol, inconclusive = {}, set(), [], [], []
    for k, r in enumerate(cfg['runs']):
        if args.only is not None and k != args.only:
            continue
        rc, txt, recs = drive(cfg, k, work, args)
        bad = [x for x in recs if x['kind'] == 'broken']
        vs = [x for x in recs if x['kind'] in ('violation', 'crash')]
        for v in vs:
            v['run'] = k
            if v['kind'] == 'crash':
                v['text'] = summarize_crash(v)
            else:
                v['text'] = v['key'] + ': ' + v['detail']
            if v['key'] == 'hang' and not any(x['key'] == 'hang' for x in viol):
                # one more try before a hang is believed
                rc2, txt2, recs2 = drive(cfg, k, work, args, case=v['case'])
                if rc2 != 97:
                    inconclusive.append(v['text'])
                    continue
            viol.append(v)
        for x in recs:
            if x['kind'] == 'count':
                counts[x['name']] = counts.get(x['name'], 0) + x['n']
            elif x['kind'] == 'features':
                features.update((k, h) for h in x['h']) if r.get('separate') else features.update(x['h'])
            elif x['kind'] == 'sample' and len(samples) < 6:
                samples.append(x['text'])
        if not vs and (bad or rc != 0 or not any(x['kind'] == 'done' for x in recs)):
            raise Trouble('driver %d ended with %s: %s %s' % (k, rc, [b['detail'] for b in bad][:3], txt[-2000:]))
    new, seen = [], {}
    for v in viol:
        for _, rx, what in known:
            if rx.search(v['text']):
                seen[what] = seen.get(what, 0) + 1
                break
        else:
            new.append(v)
    for what, n in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s (%d times)' % (pid, what, n))
    for t in inconclusive:
        print('inconclusive (did not repeat):', t)
    evaluations = counts.pop('evaluations', None)
    cases = counts.get('cases', 0)
    cov = {
        'evaluations': evaluations if evaluations is not None else cases,
        'distinct_nontrivial': len(features),
        'rule': cfg['rule'],
        'samples': samples,
        'observed': counts,
    }
    if inconclusive:
        cov['inconclusive'] = inconclusive
    ev = {
        'property': pid, 'tier': args.tier, 'seed': args.seed, 'level': cfg.get('level', 'exploration'), 'coverage': cov,
        'assumptions': cfg.get('assumptions', []), 'violations': len(new), 'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        rdir = os.path.join(VERIF, 'out')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-seed%d.txt' % (pid, args.seed))
        with open(path, 'w') as f:
            for v in new[:10]:
                f.write('%s\nreplay: python3 bin/vrun.py %s --tier %s --seed %d --run %d --case %d\n--- detail\n%s\n--- history\n%s\n======\n' % (
                    v['text'], pid, args.tier, args.seed, v['run'], v['case'], v['detail'], v['trace']))
        texts = []
        for v in new:
            if v['text'] not in texts:
                texts.append(v['text'])
        for t in texts[:8]:
            print('  ', t[:400].replace('\n', ' | '))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s ok: %d evaluations, %d distinct, %.1f s' % (pid, cov['evaluations'], len(features), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())

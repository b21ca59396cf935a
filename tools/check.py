#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py ID [--tier quick|thorough] [--seed N] [--case GROUP#I] [--prop ID2] [--scale X]

exit 0: held on everything observed (known findings are printed), 1: VIOLATION, 2: the machinery failed.
"""
import sys, os, json, time, hashlib, subprocess, re, fnmatch, shutil, argparse, signal
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
NCPU = min(8, os.cpu_count() or 8)
T0 = time.time()

class Broken(Exception):
    pass

# ------------------------------------------------------------------ build
FLAVOR = {
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-fsanitize=address,undefined'],
    'fast': ['-O2', '-g1', '-fno-omit-frame-pointer', '-fsanitize=undefined', '-DVERIF_FAST'],
    'tsan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    'opt': ['-O2', '-g1'],
    'plain': ['-O1', '-g1', '-fno-omit-frame-pointer'],
}
LIB = ['lib/period.cpp', 'lib/AlgorithmPrimitivity.cpp']

def tree_files(sub):
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, sub)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.cpp', '.hpp', '.h', '.c', '.cc')):
                out.append(os.path.join(d, f))
    return out

_hash = {}
def tree_hash():
    if 't' not in _hash:
        h = hashlib.sha256()
        for p in tree_files('include') + tree_files('lib') + tree_files('samples') + \
                 [os.path.join(VERIF, 'harness', f) for f in sorted(os.listdir(os.path.join(VERIF, 'harness')))]:
            if os.path.isfile(p):
                h.update(p.encode() + b'\0' + open(p, 'rb').read())
        _hash['t'] = h.hexdigest()[:20]
    return _hash['t']

def builddir():
    d = os.path.join(BUILD, tree_hash())
    if not os.path.isdir(d):
        if os.path.isdir(BUILD):      # keep the last few builds only
            old = []
            for x in os.listdir(BUILD):
                try:
                    if re.match(r'^[0-9a-f]{20}$', x):
                        old.append((os.path.getmtime(os.path.join(BUILD, x)), x))
                except OSError:
                    pass
            for _, x in sorted(old)[:-5]:
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    return d

def run_cc(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken('build of %s failed:\n%s\n%s' % (what, ' '.join(cmd), p.stdout[-4000:]))

def obj(src, flags, tag):
    d = builddir()
    key = hashlib.sha256((src + '\0' + '\0'.join(flags)).encode()).hexdigest()[:10]
    o = os.path.join(d, '%s.%s.%s.o' % (os.path.basename(src), tag, key))
    if not os.path.exists(o):
        tmp = o + '.%d.tmp.o' % os.getpid()
        cc = ['gcc', '-std=gnu11'] if src.endswith('.c') else ['g++', '-std=c++17']
        run_cc(cc + ['-w'] + flags + ['-c', src, '-o', tmp], src)
        os.rename(tmp, o)
    return o

# poly_sha1 and the digest column of MTGPDC exist only with USE_SHA
SHA = os.path.exists('/usr/include/openssl/sha.h')
SHADEF, SHALIB = (['-DUSE_SHA', '-Wno-deprecated-declarations'], ['-lcrypto']) if SHA else ([], [])

def build_many(units):
    """units: list of (srcs, incs, defs, flavor, name); returns executables"""
    jobs, plans = {}, []
    for srcs, incs, defs, flavor, name in units:
        fl = FLAVOR[flavor] + ['-I' + os.path.join(REPO, i) for i in ['include'] + incs] + \
            ['-I' + os.path.join(VERIF, 'harness'), '-DVERIF_REPO_DIR="%s"' % REPO] + defs
        objs = []
        for s in srcs:
            p = os.path.join(VERIF, 'harness', s) if os.path.exists(os.path.join(VERIF, 'harness', s)) else os.path.join(REPO, s)
            f = ['-O2', '-g1', '-I' + os.path.join(VERIF, 'harness')] if s == 'gf2.cpp' else fl
            k = (p, tuple(f), 'orc' if s == 'gf2.cpp' else flavor)
            jobs[k] = None
            objs.append(k)
        plans.append((objs, flavor, name))
    # big harness sources first
    order = sorted(jobs, key=lambda k: 0 if '/harness/' in k[0] else 1)
    with ThreadPoolExecutor(NCPU) as ex:
        futs = {k: ex.submit(obj, k[0], list(k[1]), k[2]) for k in order}
        for k in futs:
            jobs[k] = futs[k].result()
    def link(plan):
        objs, flavor, name = plan
        exe = os.path.join(builddir(), name + '.' + flavor + '.' + hashlib.sha256(repr(objs).encode()).hexdigest()[:8])
        if not os.path.exists(exe):
            tmp = exe + '.%d.tmp' % os.getpid()
            run_cc(['g++'] + [x for x in FLAVOR[flavor] if x.startswith('-fsan')] + [jobs[k] for k in objs] +
                   ['-lntl', '-lgmp', '-lpthread'] + SHALIB + ['-o', tmp], name)
            os.rename(tmp, exe)
        return exe
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(link, plans))

# ------------------------------------------------------------------ sanitizer reports
def norm_func(f):
    f = re.sub(r'\(.*$', '', f)
    f = re.sub(r'<[^<>]*>', '', f)
    f = re.sub(r'<[^<>]*>', '', f)
    f = re.sub(r'<.*$', '', f)
    f = re.sub(r'\bMTToolBox::', '', f)
    return f.strip().split(' ')[-1] or '?'

FRAME = re.compile(r'^\s*#\d+\s+(?:0x[0-9a-f]+\s+(?:in\s+)?)?(.*?)\s+(?:\()?(/[^\s:()]+)(?::(\d+))?')

def repo_frame(lines):
    """first frame inside /repo (function, file) of a report"""
    for l in lines:
        m = FRAME.match(l)
        if m and m.group(2).startswith(REPO + '/'):
            return norm_func(m.group(1)), os.path.basename(m.group(2)), rel_of(m.group(2))
    return None

NOFILE = re.compile(r'^(\s*#\d+\s+)(?:0x[0-9a-f]+\s+in\s+)?(.*?)\s+(?:<null>\s+)?\(([^()\s]+)\+(0x[0-9a-f]+)\).*$')

def with_files(text, exe=None):
    """adds file and line to the frames of our executables which the sanitizers could not attribute (functions defined in headers)"""
    lines = text.split('\n')
    todo = {}
    for i, l in enumerate(lines):
        m = NOFILE.match(l)
        mod = m and (exe if exe and m.group(3) == os.path.basename(exe) else m.group(3))
        if m and mod.startswith(BUILD + '/'):
            todo.setdefault(mod, {}).setdefault(m.group(4), []).append(i)
    for mod, addrs in todo.items():
        al = sorted(addrs)[:5000]
        try:
            r = subprocess.run(['addr2line', '-e', mod], input='\n'.join(al) + '\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120).stdout.split('\n')
        except (OSError, subprocess.TimeoutExpired):
            continue
        for a, f in zip(al, r):
            f = f.split(' ')[0]
            if f.startswith('/'):
                for i in addrs[a]:
                    m = NOFILE.match(lines[i])
                    lines[i] = '%s%s %s' % (m.group(1), m.group(2), f)
    return '\n'.join(lines)

def rel_of(path):
    return os.path.normpath(path)[len(REPO) + 1:]

def san_reports(text, exe=None):
    """list of (kind 'ub'|'mem'|'race', key, relpath, excerpt)"""
    out = []
    lines = with_files(text, exe).split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r'^(\S+?):(\d+):(\d+): runtime error: (.*)$', l)
        if m:
            j = i + 1
            while j < len(lines) and (FRAME.match(lines[j])):
                j += 1
            fr = repo_frame(lines[i + 1:j])
            path = m.group(1)
            if path.startswith(REPO + '/'):
                rel = rel_of(path)
            else:
                rel = fr[2] if fr else None
            msg = re.sub(r"-?\b(0x)?[0-9a-f]*[0-9][0-9a-f]*\b", 'N', m.group(4))
            msg = re.sub(r"'[^']*'", 'T', msg)
            fn = fr[0] if fr else '?'
            if rel and re.match(r'^(include|lib|samples)/', rel):
                out.append(('ub', 'ub:%s@%s:%s' % (msg.strip(), os.path.basename(rel), fn), rel, '\n'.join(lines[i:min(j, i + 14)])))
            i = j
            continue
        m = re.search(r'(ERROR|WARNING): (AddressSanitizer|ThreadSanitizer|LeakSanitizer):? (.*)$', l)
        if m:
            j = i + 1
            while j < len(lines) and j < i + 160 and not re.search(r'(ERROR|WARNING): \w+Sanitizer', lines[j]):
                j += 1
            fr = repo_frame(lines[i:j])
            kind = re.sub(r'[^A-Za-z-].*$', '', m.group(3).replace('data race', 'data-race'))
            if m.group(2) == 'ThreadSanitizer':
                # both stacks
                fs = sorted(set(x for x in [repo_frame(b.split('\n')) and repo_frame(b.split('\n'))[0]
                                            for b in re.split(r'\n\s*\n', '\n'.join(lines[i:j]))] if x))
                key = 'race:%s@%s' % (kind, '+'.join(fs) or '?')
                if fr:
                    out.append(('race', key, fr[2], '\n'.join(lines[i:i + 50])))
                else:
                    out.append(('race', key, None, '\n'.join(lines[i:i + 50])))
            else:
                out.append(('mem', 'mem:%s@%s' % (kind, fr[0] if fr else '?'), fr[2] if fr else None, '\n'.join(lines[i:i + 40])))
            i = j
            continue
        i += 1
    return out

def vg_reports(text):
    """memcheck's reports: invalid accesses and uses of uninitialised values with a frame of the code under test"""
    out = []
    for b in re.split(r'\n==\d+== ?\n', '\n' + text):
        ls = [re.sub(r'^==\d+== ?', '', l) for l in b.split('\n') if re.match(r'^==\d+== ', l)]
        if not ls:
            continue
        head = ls[0].strip()
        m = re.match(r'(Conditional jump or move depends on uninit|Use of uninit|Syscall param .* uninit|Invalid (read|write|free)|Mismatched free|Source and destination overlap|Argument)', head)
        if not m:
            continue
        fr = None
        for l in ls[1:]:
            if not re.match(r'\s+(at|by) 0x', l):
                break       # the following stacks say where a block comes from
            f = re.match(r'\s+(?:at|by) 0x[0-9A-F]+: (.*) \((/[^:()]+):(\d+)\)', l)
            if f and f.group(2).startswith(REPO + '/'):
                fr = (norm_func(f.group(1)), rel_of(f.group(2)))
                break
        if fr:
            kind = 'uninit' if 'ninit' in head else 'mem'
            out.append((kind, '%s:%s@%s' % (kind, re.sub(r'[^A-Za-z]+.*$', '', head.split()[0]) + '-' + head.split()[1], fr[0]), fr[1], '\n'.join(ls[:24])))
    return out

# ------------------------------------------------------------------ run
class Result:
    def __init__(self):
        self.viol = []       # dict key, case, detail, cmd
        self.evals = 0
        self.cases = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.notes = []
        self.san = {}        # key -> count
        self.reruns = 0
        self.ignored = 0
    def add(self, st):
        self.evals += st['evals']
        self.cases += st['cases']
        self.distinct.update(st['distinct'])
        self.samples += st['samples']
        for k, v in st['counters'].items():
            if k.startswith('max_'):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v
    def merge(self, o):
        self.add({'evals': o.evals, 'cases': o.cases, 'distinct': o.distinct, 'samples': o.samples, 'counters': o.counters})
        self.viol += o.viol
        self.notes += o.notes
        for k, v in o.san.items():
            self.san[k] = self.san.get(k, 0) + v
        self.reruns += o.reruns
        self.ignored += o.ignored

ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=6000'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1'
ENV['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0'
ENV['LC_ALL'] = 'C'

VG = ['valgrind', '-q', '--tool=memcheck', '--error-limit=no', '--num-callers=24', '--leak-check=no', '--track-origins=no', '--read-var-info=no', '--fullpath-after=']

def exec_shard(exe, args, wall, valgrind=False):
    t = time.time()
    p = subprocess.Popen((VG if valgrind else []) + [exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV,
                         start_new_session=True)
    try:
        o, e = p.communicate(timeout=wall)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        rc = 'wall'
    return rc, o.decode('latin1'), e.decode('latin1'), time.time() - t

def run_harness(exe, prop, ctx, res, extra=(), nshards=None, san_all=False, scale=None, judge=None, valgrind=False):
    nviol0 = len(res.viol)
    """runs all shards of one harness for one property"""
    nshards = nshards or NCPU
    base = ['--prop', prop, '--tier', ctx.tier, '--seed', str(ctx.seed)] + list(extra)
    if scale is not None or ctx.scale is not None:
        base += ['--scale', str((scale or 1.0) * (ctx.scale or 1.0))]
    if ctx.case:
        base += ['--case', ctx.case]
        nshards = 1
    os.makedirs(os.path.join(BUILD, 'run'), exist_ok=True)
    tag = '%d.%s.%s' % (os.getpid(), prop, os.path.basename(exe))
    def one(i):
        prog = os.path.join(BUILD, 'run', '%s.%d' % (tag, i))
        a = base + ['--shard', str(i), '--nshards', str(nshards), '--progress', prog, '--budget', str(ctx.budget),
                    '--deadline', str(max(30, int(ctx.deadline - (time.time() - T0))))]
        r = exec_shard(exe, a, ctx.hard - (time.time() - T0), valgrind)
        try:
            cur = open(prog).read().strip()
            os.unlink(prog)
        except OSError:
            cur = ''
        return (i, cur) + r
    with ThreadPoolExecutor(min(nshards, NCPU)) as ex:
        outs = list(ex.map(one, range(nshards)))
    for i, cur, rc, o, e, dt in outs:
        cmd = 'python3 tools/check.py %s --tier %s --seed %d' % (ctx.prop, ctx.tier, ctx.seed)
        if ctx.prop != prop:
            cmd += ' --prop ' + prop
        stats = None
        for l in o.split('\n'):
            if l.startswith('FAIL '):
                d = json.loads(l[5:])
                d['cmd'] = cmd + " --case '%s'" % d['case']
                res.viol.append(d)
            elif l.startswith('STATS '):
                stats = json.loads(l[6:])
        if stats:
            res.add(stats)
        reps = vg_reports(e) + ([] if valgrind else san_reports(e, exe))
        if valgrind:
            cmd += ' --vg only'
        for kind, key, rel, ex_ in reps:
            res.san[key] = res.san.get(key, 0) + 1
            judged = (kind != 'ub') or san_all
            if kind == 'race' and not san_all:
                judged = False
            if judged and (rel is not None or kind == 'mem'):
                res.viol.append({'key': key, 'case': cur, 'detail': ex_, 'cmd': cmd + (" --case '%s'" % cur if kind == 'mem' else '')})
        if stats is None and not any(k == 'mem' for k, *_ in reps):
            if rc == 77:        # CPU watchdog: run that case alone once more
                res.reruns += 1
                left = ctx.hard - (time.time() - T0)
                if left < 30:
                    res.notes.append('inconclusive: case %s exceeded its CPU budget, no time to re-run' % cur)
                    continue
                b = ctx.budget * 3 // 2
                r2 = exec_shard(exe, ['--prop', prop, '--tier', ctx.tier, '--seed', str(ctx.seed)] + list(extra) +
                                (['--scale', str((scale or 1.0) * (ctx.scale or 1.0))] if scale is not None or ctx.scale is not None else []) +
                                ['--case', cur, '--budget', str(b)], left)
                if r2[0] == 77:
                    res.viol.append({'key': 'hang', 'case': cur, 'detail': 'no end within %d s of CPU, twice' % b, 'cmd': cmd + " --case '%s'" % cur})
                elif r2[0] == 'wall':
                    res.notes.append('inconclusive: case %s' % cur)
            elif rc == 'wall':
                res.notes.append('shard %d cut at the wall limit in case %s (inconclusive)' % (i, cur))
            elif rc == 3:
                raise Broken('harness usage error: ' + e[-500:])
            else:
                fn = repo_frame(e.split('\n'))
                res.viol.append({'key': 'crash:%s' % rc, 'case': cur, 'detail': 'exit status %s, stderr: %s' % (rc, e[-1500:]),
                                 'cmd': cmd + " --case '%s'" % cur})
    if judge:
        kept = [v for v in res.viol[nviol0:] if judge(v['key'])]
        res.ignored += len(res.viol) - nviol0 - len(kept)
        res.viol[nviol0:] = kept
    return res

# ------------------------------------------------------------------ verdict
def load_known():
    k = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^known: property=(\S+) key=(\S+) case=(\S+) (.*)$', l.strip())
            if m:
                k.append(m.groups())
    return k

class Ctx:
    pass

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--case', default='')
    ap.add_argument('--prop', dest='sub', default='')
    ap.add_argument('--vg', default='')
    ap.add_argument('-v', dest='verbose', action='store_true')
    ap.add_argument('--scale', type=float, default=None)
    a = ap.parse_args()
    import props
    spec = props.PROPS[a.prop]
    ctx = Ctx()
    ctx.vg, ctx.verbose = a.vg, a.verbose
    ctx.prop, ctx.tier, ctx.seed, ctx.case, ctx.sub, ctx.scale = a.prop, a.tier, a.seed, a.case, a.sub, a.scale
    quick = a.tier != 'thorough'
    ctx.budget = 100 if quick else 600          # CPU seconds per case
    ctx.deadline = 420 if quick else 6000       # no new case after this
    ctx.hard = 780 if quick else 9000
    res = Result()
    try:
        spec['run'](ctx, res)
        if not res.evals and not res.viol:
            raise Broken('nothing was observed: ' + '; '.join(res.notes))
    except Broken as e:
        print('CHECK-ERROR %s: %s' % (a.prop, e))
        sys.exit(2)
    known = load_known()
    new, seen = [], {}
    for v in res.viol:
        hit = None
        for kp, kk, kc, kd in known:
            if kp == a.prop and fnmatch.fnmatchcase(v['key'].replace(' ', '_'), kk) and fnmatch.fnmatchcase(v['case'].replace(' ', '_'), kc):
                hit = (kk, kc, kd)
        if hit:
            seen[hit] = seen.get(hit, 0) + 1
        else:
            new.append(v)
    if not a.case:      # every listed finding is printed on every full run
        for kp, kk, kc, kd in known:
            if kp == a.prop:
                print('KNOWN-FINDING: property=%s %s (key %s, seen %d times in this run)' % (a.prop, kd, kk, seen.get((kk, kc, kd), 0)))
    rc = 0
    if new:
        rc = 1
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        done = set()
        for v in new:
            if v['key'] in done:
                continue
            done.add(v['key'])
            if len(done) > 12:
                break
            f = os.path.join(rd, '%s-%s.json' % (a.prop, hashlib.sha256((v['key'] + v['case']).encode()).hexdigest()[:10]))
            json.dump({'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'key': v['key'], 'case': v['case'],
                       'detail': v['detail'], 'replay_cmd': v.get('cmd', '')}, open(f, 'w'), indent=1)
            print('  %s in %s: %s' % (v['key'], v['case'], v['detail'][:400].replace('\n', ' | ')))
            print('VIOLATION property=%s replay=%s' % (a.prop, f))
    cov = {'evaluations': res.evals, 'distinct_nontrivial': len(res.distinct), 'rule': spec['rule'],
           'samples': res.samples[:12], 'cases': res.cases, 'counters': dict(sorted(res.counters.items())),
           'sanitizer_reports_seen': res.san, 'inconclusive': res.notes, 'results_judged_by_other_properties': res.ignored, 'watchdog_reruns': res.reruns,
           'known_findings_seen': sum(seen.values())}
    ev = {'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed, 'level': spec.get('level', 'exploration'),
          'coverage': cov, 'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - T0, 1), 'violations': len(new)}
    if not a.case:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.0f s%s' % (
        a.prop, a.tier, a.seed, res.evals, len(res.distinct), len(new), time.time() - T0,
        (' notes: ' + '; '.join(res.notes)) if res.notes else ''))
    sys.stdout.flush()
    sys.exit(rc)

if __name__ == '__main__':
    main()

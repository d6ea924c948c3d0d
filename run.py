#!/usr/bin/env python3
"""Builds one property's harness from /repo's working tree, runs it, and reports.

    run.py ID quick|thorough            decide the property
    run.py ID --replay FILE             run the one case, schedule or history named in a replay file
    run.py ID build DIR                 build only, into DIR (for working on a harness)
"""
import array, json, os, re, shutil, signal, subprocess, sys, time
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'checks'))
from registry import CHECKS
REPO = '/repo'
SRC = REPO + '/src/main/cpp'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
BOOST = ['boost_thread', 'boost_chrono', 'boost_date_time', 'boost_filesystem', 'boost_system', 'boost_serialization', 'boost_iostreams',
         'boost_atomic']
LIBS = ['-l' + b for b in BOOST] + ['-licui18n', '-licuuc', '-licudata', '-lz', '-lzip', '-lcurl', '-lssl', '-lcrypto', '-lrt', '-lbz2', '-ldl', '-lpthread']
ENABLED = {'BALAU_ENABLE_ZLIB', 'BALAU_ENABLE_ZIP', 'BALAU_ENABLE_CURL', 'BALAU_ENABLE_HTTP', 'BOOST_BEAST_NEW_API'}
GROUPS = {
    'logging': ['Balau/Logging/Logger.cpp', 'Balau/Logging/Impl/LoggingState.cpp', 'Balau/Logging/Impl/LoggingStreams.cpp',
                'Balau/Logging/Impl/LoggerItems.cpp', 'Balau/Logging/Impl/LoggerAllocator.cpp', 'Balau/Logging/Impl/LoggerHolder.cpp'],
    'netlog': ['Balau/Network/Utilities/BalauLogger.cpp'],
    'mime': ['Balau/Network/Utilities/MimeTypes.cpp'],
    'testing': ['Balau/Testing/Reporters/SurefireTestReportGenerator.cpp'],
    'webapps': ['Balau/Network/Http/Server/HttpWebApp.cpp', 'Balau/Network/Http/Server/HttpSession.cpp', 'Balau/Network/Http/Server/HttpServer.cpp'] +
               ['Balau/Network/Http/Server/HttpWebApps/%sHttpWebApp.cpp' % n for n in ('Canned', 'Failing', 'FileServing', 'Redirecting', 'Routing')] +
               ['Balau/Network/Http/Server/WsWebApps/%sWsWebApp.cpp' % n for n in ('Echoing', 'Routing')],
}
# Every entry: the sanitisers are the observers; the enumeration is what decides.
ENUM_FLAGS = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,nonnull-attribute', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']
SCHED_FLAGS = ['-O1', '-fno-inline-small-functions', '-fsanitize=thread', '--param', 'tsan-distinguish-volatile=0', '-DVSCHED']
LINK = {'enum': ['-fsanitize=address,undefined'], 'sched': [], 'plain': []}


class BuildError(Exception):
    pass


def generate(gen):
    os.makedirs(gen + '/Balau/Type', exist_ok=True)
    t = open(SRC + '/Balau/BalauConfig.hpp.in').read()
    t = re.sub(r'#cmakedefine (\w+)', lambda m: ('#define ' + m[1]) if m[1] in ENABLED else '/* #undef %s */' % m[1], t)
    open(gen + '/Balau/BalauConfig.hpp', 'w').write(t)
    t = open(SRC + '/Balau/Type/BalauVersion.hpp.in').read().replace('@BALAU_VERSION@', '0.0.0')
    open(gen + '/Balau/Type/BalauVersion.hpp', 'w').write(t)


def build(pid, d):
    c = CHECKS[pid]
    engine = c.get('engine', 'enum')
    os.makedirs(d, exist_ok=True)
    generate(d + '/gen')
    shim = ['-I' + VERIF + '/lib/shim'] if c.get('shim') else []
    base = ['g++', '-std=c++17', '-g1', '-w', '-pipe', '-fno-omit-frame-pointer', '-include', 'complex', '-include', 'fstream', '-include', 'boost/filesystem/fstream.hpp',
            '-DBALAU_DEBUG', '-I' + SRC, '-I' + d + '/gen', '-I' + VERIF + '/lib'] + shim + ['-DVERIF_REPO="%s"' % REPO]
    eng = {'enum': ENUM_FLAGS, 'sched': SCHED_FLAGS, 'plain': ['-O1', '-D_GLIBCXX_ASSERTIONS']}[engine]
    if 'opt' in c:
        eng = eng + [c['opt']]
    eng = eng + c.get('flags', [])
    units = [(os.path.join(VERIF, 'checks', s), eng) for s in c['src']]
    for g in c.get('balau', []):
        for s in GROUPS.get(g, [g]):
            units.append((os.path.join(SRC, s), eng))
    if engine == 'sched':
        units.append((VERIF + '/lib/vsched.cpp', ['-O2']))
    procs, objs = [], []
    for n, (s, fl) in enumerate(units):
        o = '%s/%d.o' % (d, n)
        objs.append(o)
        log = open(o + '.log', 'w')
        procs.append((s, o, subprocess.Popen(base + fl + ['-c', s, '-o', o], stdout=log, stderr=subprocess.STDOUT)))
        while sum(p.poll() is None for _, _, p in procs) >= JOBS:
            time.sleep(0.05)
    bad = [(s, o) for s, o, p in procs if p.wait()]
    if bad:
        for s, o in bad:
            print('build failed: ' + s)
            print(open(o + '.log').read()[-4000:])
        raise BuildError()
    exe = d + '/harness'
    r = subprocess.run(['g++', '-o', exe] + objs + LINK[engine] + LIBS + c.get('libs', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode(errors='replace')[-4000:])
        raise BuildError()
    return exe


def env(c):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=%d:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1:symbolize=%d' % (c.get('leaks', 0), 0)
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:symbolize=0'
    e['LC_ALL'] = 'C.UTF-8'
    e['TZ'] = 'UTC'
    e.update(c.get('env', {}))
    return e


def read_u64(f, n=1):
    try:
        b = open(f, 'rb').read(8 * n)
        return [int.from_bytes(b[8 * i:8 * i + 8], 'little') for i in range(n)]
    except OSError:
        return [0] * n


class Run:
    """One harness process."""
    def __init__(self, exe, c, d, tag, args, scratch_user=None):
        self.d, self.tag, self.exe, self.c = d, tag, exe, c
        self.out = '%s/%s.json' % (d, tag)
        self.hb = '%s/%s.hb' % (d, tag)
        self.err = '%s/%s.err' % (d, tag)
        self.scratch = '%s/scratch-%s' % (d, tag)
        for f in (self.out, self.hb):
            if os.path.exists(f):
                os.remove(f)
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.args = [exe, '--out', self.out, '--hb', self.hb, '--scratch', self.scratch] + args
        self.log = open(self.err, 'w')
        self.p = subprocess.Popen(self.args, stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL, env=env(c), cwd=self.scratch, start_new_session=True)
        self.last, self.t = None, time.time()
        self.hung = False

    def poll(self, limit):
        if self.p.poll() is not None:
            return True
        b = tuple(read_u64(self.hb, 2))
        if b != self.last:
            self.last, self.t = b, time.time()
        elif time.time() - self.t > limit:
            self.hung = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def result(self):
        try:
            return json.load(open(self.out))
        except (OSError, ValueError):
            return None

    def current(self):
        return read_u64(self.hb, 1)[0]

    def tail(self):
        t = open(self.err, errors='replace').read()
        m = re.search(r'(==\d+==ERROR: [^\n]*|[^\n]*runtime error: [^\n]*|[^\n]*Assertion [^\n]*|terminate called[^\n]*(\n[^\n]*)?)', t)
        return (m[0] + ' | ' if m else '') + t[-1500:]

    def cleanup(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)   # Whatever the case left running.
        except OSError:
            pass
        shutil.rmtree(self.scratch, ignore_errors=True)


def wait(runs, limit):
    todo = list(runs)
    while todo:
        todo = [r for r in todo if not r.poll(limit)]
        time.sleep(0.02)


def single(exe, c, d, tier, idx, tag, limit, detail='', extra=()):
    """Runs one case alone, or (extra) the shard up to it when the case needs those before it."""
    desc = d + '/' + tag + '.desc'
    m = re.search(r'schedule=([\d.,-]+);', detail)
    args = list(extra) if extra else ['--tier', tier, '--only', str(idx), '--describe', desc] + (['--schedule', m[1]] if m else [])
    r = Run(exe, c, d, tag, args)
    wait([r], limit)
    r.cleanup()
    case = open(desc, errors='replace').read() if os.path.exists(desc) else '?'
    return r, case


def crashkey(r):
    if r.hung:
        return 'hang'
    t = open(r.err, errors='replace').read()
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', t) or re.search(r'runtime error: ([^\n]{0,60})', t) or re.search(r'(terminate called)', t)
    return 'crash: ' + (m[1] if m else 'exit status %s' % r.p.returncode)


def known(pid):
    k = {}
    f = VERIF + '/known_findings.txt'
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'KNOWN property=(\S+) key=\[(.*?)\] (.*)', line.strip())
            if m and m[1] == pid:
                k[m[2]] = m[3]
    return k


def main():
    pid, mode = sys.argv[1], sys.argv[2]
    c = CHECKS[pid]
    if mode == 'build':
        try:
            print(build(pid, sys.argv[3]))
        except BuildError:
            sys.exit(2)
        return
    t0 = time.time()
    d = '%s/build/%s-%d' % (VERIF, pid, os.getpid())
    code = 2
    try:
        exe = build(pid, d)
        tb = time.time() - t0
        if mode == '--replay':
            code = replay(pid, c, exe, d, sys.argv[3])
        else:
            code = decide(pid, c, exe, d, mode, t0, tb)
    except BuildError:
        print('ERROR property=%s the harness does not build against this tree' % pid)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(code)


def replay(pid, c, exe, d, f):
    rep = json.load(open(f))
    r, case = single(exe, c, d, rep['tier'], rep['idx'], 'replay', 300, rep['detail'], rep.get('extra', []))
    res = r.result()
    print('case: ' + case)
    print(open(r.err, errors='replace').read()[-6000:])
    if res is None or r.hung:
        print('VIOLATION property=%s replay=%s' % (pid, f))
        print(crashkey(r))
        return 1
    for v in res['violations']:
        print('VIOLATION property=%s replay=%s' % (pid, f))
        print('%s: %s' % (v['key'], v['detail']))
    return 1 if res['violations'] else 0


def decide(pid, c, exe, d, tier, t0, tb):
    cfg = c.get(tier, {})
    budget = cfg.get('budget', 450 if tier == 'quick' else 2400)
    hang = c.get('hang', 90)
    shards = c.get('shards', JOBS)
    args = ['--tier', tier, '--budget', str(budget)] + cfg.get('args', [])
    runs, queue = [], list(range(shards))
    active = []
    while queue or active:
        while queue and len(active) < JOBS:
            i = queue.pop(0)
            r = Run(exe, c, d, 's%d' % i, args + ['--shard', str(i), '--shards', str(shards)])
            r.i = i
            runs.append(r)
            active.append(r)
        active = [r for r in active if not r.poll(hang)]
        time.sleep(0.02)
    for r in runs:
        r.cleanup()
    found, unconfirmed = {}, []
    ev = dict(evaluations=0, transitions=0, traces=0, skipped=0)
    outcomes, notes, samples, cases = {}, {}, [], 0
    distinct, states = set(), set()
    k = known(pid)
    # Confirming a great number of violations one by one would take too long: some are enough.
    enough = lambda: sum(key not in k for key in found) >= 10 or (time.time() - t0 > 600 and any(key not in k for key in found))
    for r in runs:
        res = r.result() if not r.hung else None
        if res is None:
            if enough():
                continue
            idx = r.current()
            s, case = single(exe, c, d, tier, idx, 'confirm', max(hang, 120))
            sres = s.result() if not s.hung else None
            if sres is None:
                key = crashkey(s)
                found.setdefault(key, dict(idx=idx, case=case, detail=s.tail(), count=1))
            elif sres['violations']:
                for v in sres['violations']:
                    found.setdefault(v['key'], dict(idx=idx, case=case, detail=v['detail'], count=1))
            else:
                # Does the whole shard die again?
                key = crashkey(r)
                r2 = Run(exe, c, d, 'again', r.args[7:])
                wait([r2], hang)
                r2.cleanup()
                if (r2.result() if not r2.hung else None) is None:
                    found.setdefault(key, dict(idx=idx, case=case, detail='(needs the cases before it) ' + r2.tail(), count=1, extra=r.args[7:]))
                else:
                    unconfirmed.append((key, case, r.tail()))
            continue
        for k in ev:
            ev[k] += res.get(k, 0)
        cases = max(cases, res['cases'])
        for k, v in res['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        notes.update(res['notes'])
        samples += res['samples'][:2]
        for name, acc in (('distinct', distinct), ('states', states)):
            f = r.out + '.' + name
            if os.path.exists(f):
                a = array.array('Q')
                n = os.path.getsize(f) // 8
                with open(f, 'rb') as fh:
                    a.fromfile(fh, n)
                acc.update(a)
        for v in res['violations']:
            e = found.get(v['key'])
            if e:
                e['count'] += v['count']
                continue
            if enough():
                continue
            if time.time() - t0 > 780:
                found[v['key']] = dict(idx=v['idx'], case='(no time left to run the case again)', detail=v['detail'], count=v['count'])
                continue
            s, case = single(exe, c, d, tier, v['idx'], 'confirm', max(hang, 120), v['detail'])
            sres = s.result() if not s.hung else None
            if sres is None or any(x['key'] == v['key'] for x in sres['violations']):
                found[v['key']] = dict(idx=v['idx'], case=case, detail=v['detail'], count=v['count'])
            else:
                r2 = Run(exe, c, d, 'again', r.args[7:])
                wait([r2], hang)
                r2.cleanup()
                res2 = r2.result() if not r2.hung else None
                if res2 is None or any(x['key'] == v['key'] for x in res2['violations']):
                    found[v['key']] = dict(idx=v['idx'], case=case, detail='(needs the cases before it) ' + v['detail'], count=v['count'], extra=r.args[7:])
                else:
                    unconfirmed.append((v['key'], case, v['detail']))
    code, nviol = 0, 0
    for key, f in sorted(found.items()):
        if key in k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[key]))
            continue
        nviol += 1
        os.makedirs(VERIF + '/replays', exist_ok=True)
        path = '%s/replays/%s-%d.json' % (VERIF, pid, nviol)
        json.dump(dict(property=pid, tier=tier, idx=f['idx'], key=key, case=f['case'], detail=f['detail'], extra=f.get('extra', [])), open(path, 'w'), indent=1)
        if nviol <= 20:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s (seen %d times)\n  case: %s\n  %s' % (key, f['count'], f['case'][:1500], f['detail'][:1500]))
        code = 1
    for key, case, detail in unconfirmed:
        print('note: not reproduced, not reported: %s / %s / %s' % (key, case[:300], detail[:300]))
    wall = time.time() - t0
    level = c['level']
    cov = dict(exhaustive=(ev['skipped'] == 0 and code == 0), bounds=cfg.get('bounds', c.get('bounds', '')), outcomes=outcomes, notes=notes, samples=samples[:6] or ['(none)'],
               build_s=round(tb, 1), cases_enumerated=cases, cases_skipped_by_time=ev['skipped'])
    if level == 'model_checking':
        cov.update(states=len(states), transitions=ev['transitions'], traces_validated_against_impl=ev['traces'], evaluations=ev['evaluations'])
    else:
        cov.update(evaluations=ev['evaluations'], distinct_nontrivial=len(distinct), rule=c['rule'])
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov, wall_s=round(wall, 1), violations=nviol,
                   assumptions=c.get('assumptions', [])), open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1)
    print('%s %s: %s; %d evaluations, %d states, %d distinct, %d transitions, %d skipped; build %.0f s, all %.0f s' % (
        pid, tier, 'held' if code == 0 else 'VIOLATED', ev['evaluations'], len(states), len(distinct), ev['transitions'], ev['skipped'], tb, wall))
    return code


if __name__ == '__main__':
    main()

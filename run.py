#!/usr/bin/env python3
"""Driver of the property checks.

  run.py C01 [C02 ...]        run checks (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py --replay FILE        re-run a replay file
  run.py --setup              compile every harness once (sanity)
"""
import concurrent.futures as cf
import hashlib
import json
import os
import pwd
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LSMDB_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
WORKERS = max(2, min(8, os.cpu_count() or 8))

DEFS = ['-DLSMDB_PLATFORM_POSIX=1', '-D_GLIBCXX_ASSERTIONS']
CONFIG = {'FDATASYNC', 'O_CLOEXEC'}
INC = ['-I' + REPO, '-I' + REPO + '/include']
COMMON = ['-g', '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE', '-pthread', '-w']
VARIANTS = {
    'asan': dict(cxx='g++', flags=['-O1', '-fsanitize=address', '-ftrivial-auto-var-init=pattern'], link=['-fsanitize=address']),
    # as a user builds it: optimised and without assertions (work inside an assertion is not done there)
    'release': dict(cxx='g++', flags=['-O3', '-DNDEBUG', '-fsanitize=address', '-ftrivial-auto-var-init=pattern'], link=['-fsanitize=address']),
    'tsan': dict(cxx='g++', flags=['-O1', '-fsanitize=thread'], link=['-fsanitize=thread']),
    'plain': dict(cxx='g++', flags=['-O1', '-ftrivial-auto-var-init=pattern'], link=[]),
    # real threads under the deterministic scheduler of harness/dsched.cc
    'sched': dict(cxx='clang++', flags=['-O1', '-fsanitize=address', '-ftrivial-auto-var-init=pattern'],
                  instrument=['-fsanitize-coverage=bb,no-prune,trace-pc,trace-loads,trace-stores'], more=['dsched.cc'],
                  wraps=['pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_cond_wait', 'pthread_cond_timedwait',
                         'pthread_cond_clockwait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_create', 'pthread_join',
                         'pthread_detach', 'nanosleep', 'usleep', 'sched_yield', '__cxa_guard_acquire', '__cxa_guard_release',
                         '__cxa_guard_abort', 'pthread_once', 'pthread_rwlock_rdlock', 'pthread_rwlock_tryrdlock', 'pthread_rwlock_wrlock',
                         'pthread_rwlock_trywrlock', 'pthread_rwlock_unlock', 'pthread_spin_lock', 'pthread_spin_trylock', 'pthread_spin_unlock',
                         'sem_wait', 'sem_post', 'flockfile', 'ftrylockfile', 'funlockfile', 'fwrite', 'fflush', 'fputs', 'fputc', 'putc',
                         'fprintf', 'vfprintf'],
                  link=['-fsanitize=address', '-static-libstdc++']),
    'fuzz': dict(cxx='clang++', flags=['-O1', '-fsanitize=fuzzer-no-link,address', '-ftrivial-auto-var-init=pattern', '-DPBT_FUZZ'],
                 link=['-fsanitize=fuzzer,address']),
}
VARIANTS['sched-release'] = dict(VARIANTS['sched'], flags=VARIANTS['sched']['flags'] + ['-DNDEBUG'])
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=66:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=1:'
                    'detect_odr_violation=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:max_free_fill_size=65536:'
                    'free_fill_byte=222:disable_coredump=1:print_legend=0',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0:report_thread_leaks=0:history_size=3',
    'TZ': os.environ.get('TZ', 'UTC'),
    'LC_ALL': 'C',
}


def sh_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def repo_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(d for d in dirs if not d.startswith('.') and d not in ('third_party', 'cmake')
                         and not (rel == '.' and (d.startswith('_build') or d.startswith('build'))))
        for f in sorted(files):
            if f.endswith(('.cc', '.h', '.cpp', '.c', '.hpp', '.inc')):
                out.append(os.path.normpath(os.path.join(rel, f)))
    return out


def is_lib_source(f):
    b = os.path.basename(f)
    return (f.endswith(('.cc', '.cpp')) and not re.search(r'_(test|bench|win|windows)\.(cc|cpp)$', b)
            and b not in ('lsmdb_util.cc', 'test_util.cc') and not b.startswith('test_')
            and not f.startswith(('benchmarks/', 'test/', 'tests/', 'fuzz/', 'issues/', 'examples/', 'doc/')))


def is_scanned(f):
    b = os.path.basename(f)
    return not re.search(r'_test\.(cc|cpp)$', b) and b not in ('test_util.cc', 'test_util.h')


# ----------------------------------------------------------------- literals
def literals(text):
    text = re.sub(r'//[^\n]*', '', text)
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    ints, strs = [], []
    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', text):
        try:
            s = m.group(1).encode('latin-1', 'replace').decode('unicode_escape').encode('latin-1', 'replace')
        except Exception:
            continue
        if 0 < len(s) <= 64 and not s.endswith(b'.h'):
            strs.append(s)
    body = re.sub(r'"(?:[^"\\\n]|\\.)*"', ' ', text)
    for m in re.finditer(r"'((?:[^'\\\n]|\\.)+)'", body):
        try:
            s = m.group(1).encode('latin-1', 'replace').decode('unicode_escape').encode('latin-1', 'replace')
        except Exception:
            continue
        if len(s) == 1:
            strs.append(s)
    body = re.sub(r"'(?:[^'\\\n]|\\.)+'", ' ', body)

    def num(t):
        t = t.replace("'", '').rstrip('uUlLzZ')
        try:
            if t.lower().startswith('0x'):
                return int(t, 16)
            if t.lower().startswith('0b'):
                return int(t, 2)
            if len(t) > 1 and t[0] == '0':
                return int(t, 8)
            return int(t)
        except ValueError:
            return None
    for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F\']+|\d[\d\']*)[uUlLzZ]*(?![\w.])', body):
        v = num(m.group(1))
        if v is not None and v < 1 << 64:
            ints.append(v)
    for m in re.finditer(r'(?<![\w.])(\d+)[uUlL]*\s*(<<|\*)\s*(\d+)', body):
        a, b = num(m.group(1)), num(m.group(3))
        if a is None or b is None:
            continue
        v = (a << b if b < 64 else 0) if m.group(2) == '<<' else a * b
        if v < 1 << 64:
            ints.append(v)
    return ints, strs


def scan_literals():
    res = {}
    for f in repo_files():
        if not is_scanned(f):
            continue
        with open(os.path.join(REPO, f), encoding='utf-8', errors='replace') as fp:
            i, s = literals(fp.read())
        d = {}
        for v in i:
            d['i%d' % v] = d.get('i%d' % v, 0) + 1
        for v in s:
            d['s' + v.hex()] = d.get('s' + v.hex(), 0) + 1
        res[f] = d
    return res


def write_dict(path):
    cur = scan_literals()
    try:
        base = json.load(open(os.path.join(HERE, 'baseline_literals.json')))
    except Exception:
        base = {}
    allk, new = set(), set()
    for f, d in cur.items():
        b = base.get(f, {})
        for k, n in d.items():
            allk.add(k)
            if n > b.get(k, 0) and base:
                new.add(k)
    lines = []
    for k in sorted(allk):
        lines.append('%s %s' % (k[0], k[1:]))
    for k in sorted(new):
        lines.append('%sn %s' % (k[0], k[1:]))
    # a few classics that no source literal provides
    for v in (0, 1, 2, 127, 128, 255, 256, 4095, 4096, 4097, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1):
        lines.append('i %d' % v)
    with open(path, 'w') as fp:
        fp.write('\n'.join(lines) + '\n')
    return len(allk), len(new)


# ----------------------------------------------------------------- building
class BuildError(Exception):
    pass


def run_cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))


def build(stages):
    """Compiles the given (source, variant, wraps, extra) stages; returns {stage key: binary}."""
    files = repo_files()
    blobs = []
    for f in files:
        with open(os.path.join(REPO, f), 'rb') as fp:
            blobs.append(f.encode() + b'\0' + fp.read())
    tree = sh_hash(*blobs, REPO)
    libsrc = [f for f in files if is_lib_source(f)]
    bdir = os.path.join(HERE, 'build')
    os.makedirs(bdir, exist_ok=True)
    jobs = {}      # output -> command
    links = {}

    # port_config.h as the project's own build makes it from its template
    def config_dir(have):
        try:
            tmpl = open(os.path.join(REPO, 'port', 'port_config.h.in')).read()
        except OSError:
            tmpl = ''.join('#define HAVE_%s %d\n' % (k, k in have) for k in ('FDATASYNC', 'FULLFSYNC', 'O_CLOEXEC', 'CRC32C', 'SNAPPY'))
        conf = re.sub(r'#cmakedefine01 +(\w+)', lambda m: '#define %s %d' % (m.group(1), m.group(1)[5:] in have), tmpl)
        conf = re.sub(r'#cmakedefine +(\w+)[^\n]*', lambda m: '#define %s 1' % m.group(1) if m.group(1)[5:] in have else '', conf)
        gen = os.path.join(bdir, 'gen-' + sh_hash(conf))
        if not os.path.exists(gen + '/port/port_config.h'):
            tmp = tempfile.mkdtemp(dir=bdir)
            os.makedirs(tmp + '/port')
            with open(tmp + '/port/port_config.h', 'w') as fp:
                fp.write(conf)
            try:
                os.rename(tmp, gen)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        return gen

    def obj(src, variant, std, extra, dep):
        v = VARIANTS[variant]
        cmd = [v['cxx'], '-std=' + std] + COMMON + v['flags'] + DEFS + ['-I' + config_dir(have)] + INC + extra + ['-c', src]
        with open(src, 'rb') as fp:
            content = fp.read()
        o = os.path.join(bdir, sh_hash(' '.join(cmd), content, dep) + '.o')
        jobs[o] = cmd + ['-o']
        return o
    stubs = sh_hash(*[open(os.path.join(r, f), 'rb').read() for r, _, fs in sorted(os.walk(os.path.join(HERE, 'harness', 'stubs'))) for f in sorted(fs)])
    hdep = stubs.encode() + b''.join(open(os.path.join(HERE, 'harness', h), 'rb').read()
                    for h in sorted(os.listdir(os.path.join(HERE, 'harness'))) if h.endswith('.h'))
    out = {}
    for st in stages:
        variant = st['variant']
        v = VARIANTS[variant]
        # a platform with other features than this one; its headers may be stand-ins (harness/stubs)
        have = set(st.get('config', CONFIG))
        ins = v.get('instrument', []) + st.get('defs', [])
        objs = [obj(os.path.join(REPO, f), variant, 'c++11', ins + st.get('libflags', []), tree + (stubs if 'config' in st else '')) for f in libsrc]
        hx = ['-I' + os.path.join(HERE, 'harness')] + st.get('cflags', [])
        objs.append(obj(os.path.join(HERE, 'harness', st['src']), variant, 'c++17', ins + hx, tree + sh_hash(hdep)))
        for more in ['pbt.cc'] + v.get('more', []):
            objs.append(obj(os.path.join(HERE, 'harness', more), variant, 'c++17', hx, sh_hash(hdep)))
        link = [v['cxx']] + v['link'] + ['-pthread', '-g'] + ['-Wl,--wrap=' + w for w in v.get('wraps', []) + st.get('wraps', [])] + objs + ['-ldl'] + st.get('ldflags', [])
        exe = os.path.join(bdir, sh_hash(' '.join(link)) + '.exe')
        links[exe] = link + ['-o']
        out[st['key']] = exe

    def make(target, cmd):
        if os.path.exists(target):
            os.utime(target)
            return
        tmp = target + '.%d.tmp' % os.getpid()
        run_cc(cmd + [tmp])
        os.replace(tmp, target)
    with cf.ThreadPoolExecutor(max_workers=WORKERS) as ex:
        for f in [ex.submit(make, t, c) for t, c in jobs.items()]:
            f.result()
        for f in [ex.submit(make, t, c) for t, c in links.items()]:
            f.result()
    prune(bdir)
    return out


def prune(bdir, keep_bytes=3 << 30):
    ents = []
    for f in os.listdir(bdir):
        p = os.path.join(bdir, f)
        try:
            s = os.stat(p)
        except OSError:
            continue
        if os.path.isfile(p):
            ents.append((s.st_mtime, s.st_size, p))
    ents.sort(reverse=True)
    total = 0
    for m, n, p in ents:
        total += n
        if total > keep_bytes and time.time() - m > 1800:
            try:
                os.unlink(p)
            except OSError:
                pass


# ----------------------------------------------------------------- running
def scratch():
    base = '/dev/shm'
    try:
        s = os.statvfs(base)
        if not os.access(base, os.W_OK) or s.f_bavail * s.f_frsize < (2 << 30):
            base = '/tmp'
    except OSError:
        base = '/tmp'
    d = tempfile.mkdtemp(prefix='lsmdb-verif-', dir=base)
    os.chmod(d, 0o755)
    b = tempfile.mkdtemp(prefix='lsmdb-verif-bin-', dir='/tmp')
    os.chmod(b, 0o755)
    return d, b


def unpriv():
    if os.geteuid() != 0:
        return None
    try:
        u = pwd.getpwnam('nobody')
        ids = (u.pw_uid, u.pw_gid)
    except KeyError:
        ids = (65534, 65534)
    try:
        subprocess.run(['/bin/true'], user=ids[0], group=ids[1], extra_groups=[], check=True)
        return ids
    except Exception:
        return None


IDS = unpriv()


def popen(cmd, cwd, env_extra=None, stdout=None, stderr=None):
    env = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': '/nonexistent', 'LANG': 'C'}
    env.update(SAN_ENV)
    # for large sparse files: a place that is not backed by memory
    env['PBT_DISK'] = mkout(os.path.dirname(cmd[0]), 'disk')
    env.update(env_extra or {})
    kw = {}
    if IDS:
        kw = dict(user=IDS[0], group=IDS[1], extra_groups=[])
    return subprocess.Popen(cmd, cwd=cwd, env=env, stdout=stdout, stderr=stderr, start_new_session=True, **kw)


def mkout(parent, name):
    d = os.path.join(parent, name)
    os.makedirs(d, exist_ok=True)
    os.chmod(d, 0o777)
    if IDS:
        os.chown(d, *IDS)
    return d


def wait(p, limit):
    try:
        p.wait(limit)
        return True
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return False


def load_result(outdir):
    try:
        with open(os.path.join(outdir, 'result.json')) as fp:
            return json.load(fp)
    except Exception:
        return None


def engine(exe, outdir, args, limit, env=None):
    log = open(os.path.join(outdir, 'engine.err'), 'w+')
    p = popen([exe, '--out', outdir, '--seed', str(SEED)] + args, outdir, env, stdout=subprocess.PIPE if '--replay' in args else subprocess.DEVNULL, stderr=log)
    text = ''
    if '--replay' in args:
        try:
            text = p.communicate(timeout=limit)[0].decode('latin-1')
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    else:
        wait(p, limit)
    log.seek(0)
    return p.returncode, text, log.read()


def fuzz_stage(chk, st, exe_main, exe_fuzz, work, dictfile, seconds):
    """Coverage-guided search; returns (stats, violation or None, unreproduced)."""
    env = {'PBT_DICT': dictfile}
    cdir = mkout(work, 'corpus')
    od = mkout(work, 'corpus-out')
    engine(exe_main, od, ['--corpus', cdir, '--dict', dictfile], 120)
    procs = []
    for k in range(WORKERS):
        d = mkout(work, 'fz%d' % k)
        mine = mkout(d, 'corpus')
        e = dict(env)
        e['PBT_OUT'] = d
        log = open(os.path.join(d, 'log'), 'w+')
        cmd = [exe_fuzz, '-seed=%d' % ((SEED * 1000 + k) % 2**31 + 1), '-max_total_time=%d' % seconds, '-timeout=30', '-rss_limit_mb=3000',
               '-use_value_profile=%d' % (k % 2), '-print_final_stats=1', '-max_len=%d' % (1024 if k % 4 else 4000), '-len_control=%d' % (100 if k % 2 else 0),
               '-detect_leaks=0', '-reload=0', '-verbosity=1', '-artifact_prefix=%s/crash-' % d, mine, cdir]
        procs.append((popen(cmd, d, e, stdout=subprocess.DEVNULL, stderr=log), d, log))
    end = time.time() + seconds + 60
    execs, arts, cov, units = 0, [], 0, 0
    alive = list(procs)
    while alive:
        nxt = []
        for p, d, log in alive:
            if p.poll() is None:
                if time.time() > end:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                else:
                    nxt.append((p, d, log))
        if len(nxt) < len(alive) and any(f.startswith('crash-') for p, d, l in procs for f in os.listdir(d)):
            # somebody found something: stop the rest
            for p, d, log in nxt:
                os.killpg(p.pid, signal.SIGINT)
            for p, d, log in nxt:
                wait(p, 20)
            break
        alive = nxt
        time.sleep(0.2)
    for p, d, log in procs:
        log.seek(0)
        t = log.read()
        m = re.search(r'stat::number_of_executed_units:\s+(\d+)', t)
        if m:
            execs += int(m.group(1))
        else:
            mm = re.findall(r'^#(\d+)\s', t, flags=re.M)
            execs += int(mm[-1]) if mm else 0
        for m in re.finditer(r'cov: (\d+)', t):
            cov = max(cov, int(m.group(1)))
        units += len(os.listdir(os.path.join(d, 'corpus')))
        for f in sorted(os.listdir(d)):
            if f.startswith('crash-'):
                arts.append((os.path.join(d, f), t[-3000:]))
    stats = {'fuzz_executions': execs, 'fuzz_coverage_edges': cov, 'fuzz_inputs_kept_for_new_coverage': units, 'fuzz_seconds': seconds, 'fuzz_jobs': WORKERS}
    unrep = []
    arts.sort(key=lambda a: os.path.getsize(a[0]))
    for art, text in arts[:6]:
        dump = os.path.join(os.path.dirname(art), 'dump')
        try:
            os.unlink(dump)
        except OSError:
            pass
        fails = 0
        msg = ''
        d = os.path.dirname(art)
        is_hang = 'crash-timeout' in os.path.basename(art) or 'timeout-' in os.path.basename(art)
        for _ in range(2):
            p = popen([exe_fuzz, '-timeout=60', '-rss_limit_mb=3000', '-detect_leaks=0', art], d, {'PBT_DICT': dictfile, 'PBT_DUMP': dump, 'PBT_OUT': d},
                      stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, 'again'), 'w'))
            done = wait(p, 90)
            if not done or p.returncode != 0:
                fails += 1
                msg = open(os.path.join(d, 'again'), errors='replace').read()
        if not os.path.exists(dump):
            unrep.append('fuzz artifact without choices: ' + text[-400:])
            continue
        sub, choices = open(dump).read().split('\n')[:2]
        cf_ = os.path.join(d, 'cand')
        open(cf_, 'w').write(choices)
        od = mkout(work, 'confirm')
        engine(exe_main, od, ['--only', sub, '--candidate', cf_, '--dict', dictfile], 400)
        r = load_result(od)
        if r and r.get('violation'):
            v = r['violation']
            v['how'] += '; found by the coverage-guided stage'
            return stats, v, unrep
        if fails == 2 and not is_hang and 'out-of-memory' not in msg:
            m = re.search(r'PBT-FAIL [^\n]*', msg) or re.search(r'ERROR: [^\n]*', msg)
            return stats, {'sub': sub, 'message': (m.group(0) if m else '') + '\n' + msg[-2500:], 'how': 'fails in the clang build only', 'trace': '',
                           'choices': [int(x) for x in choices.split()], 'variant': 'fuzz',
                           'artifact': open(art, 'rb').read().hex()}, unrep
        unrep.append('fuzz artifact not reproduced: ' + (text[-400:] if not is_hang else 'slow input'))
    return stats, None, unrep


def known_findings(pid):
    res = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return res


def check(pid):
    chk = CHECKS[pid]
    t0 = time.time()
    work, bindir = scratch()
    try:
        return check_in(pid, chk, t0, work, bindir)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(bindir, ignore_errors=True)


def check_in(pid, chk, t0, work, bindir):
    thorough = TIER == 'thorough'
    dictfile = os.path.join(work, 'dict')
    nlit, nnew = write_dict(dictfile)
    os.chmod(dictfile, 0o644)
    want = []
    for k, st in enumerate(chk['stages']):
        s = dict(st, key='m%d' % k, variant=st.get('variant', 'asan'))
        want.append(s)
        if st.get('fuzz'):
            want.append(dict(s, key='f%d' % k, variant='fuzz'))
    skipped = []
    try:
        exes = build([s for s in want if not s.get('optional')])
        for k, s in enumerate(chk['stages']):
            group = [x for x in want if s.get('optional') and x['key'][1:] == str(k)]
            try:
                exes.update(build(group) if group else {})
            except BuildError as e:  # the tree does not support that platform, or needs more of it than the stand-ins offer
                print('stage %d does not build and is left out: %s' % (k, str(e)[:300]), file=sys.stderr)
                skipped.append(k)
    except BuildError as e:
        print('BUILD FAILED\n' + str(e), file=sys.stderr)
        return 2
    build_s = time.time() - t0
    for k in list(exes):
        dst = os.path.join(bindir, os.path.basename(exes[k]))
        if not os.path.exists(dst):
            shutil.copy(exes[k], dst)
            os.chmod(dst, 0o755)
        exes[k] = dst
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'stages': []}
    rules = []
    violation = None
    unrep = []
    error = None
    for k, st in enumerate(chk['stages']):
        if k in skipped:
            cov['stages'].append({'harness': st['src'], 'build': st.get('variant', 'asan'), 'platform': st.get('platform'), 'left_out': 'does not build'})
            continue
        out = mkout(work, 'stage%d' % k)
        cap = st.get('cap_thorough', 600) if thorough else st.get('cap', 120)
        args = ['--workers', str(st.get('workers', WORKERS)), '--cap', str(cap), '--dict', dictfile]
        scale = st.get('scale_thorough', 1) if thorough else st.get('scale', 1)
        args += ['--scale', str(scale * float(os.environ.get('PBT_SCALE', '1')))]
        if thorough:
            args.append('--thorough')
        if st.get('skip'):
            args += ['--skip', st['skip']]
        rc, _, log = engine(exes['m%d' % k], out, args, cap + 560, st.get('env'))
        r = load_result(out)
        if rc != 0 or r is None:
            error = 'engine of stage %d ended with %s\n%s' % (k, rc, log[-3000:])
            break
        cov['evaluations'] += r['evaluated'] - r['discarded']
        cov['distinct_nontrivial'] += r['distinct_nontrivial']
        cov['samples'] += r['samples'][:8]
        rules.append(r['rule'])
        info = {'harness': st['src'], 'build': st.get('variant', 'asan'), 'subchecks': r['subchecks'], 'labels': r['labels'],
                'stopped_by_time_cap': r['hit_cap'], 'wall_s': r['wall_s']}
        if st.get('platform'):
            info['platform'] = st['platform']
        unrep += r['unreproduced']
        cov['stages'].append(info)
        if r.get('violation'):
            violation = dict(r['violation'], stage=k)
            break
        if st.get('fuzz'):
            secs = st.get('fuzz_thorough', 300) if thorough else st.get('fuzz_quick', 10)
            fs, v, u = fuzz_stage(chk, st, exes['m%d' % k], exes['f%d' % k], mkout(work, 'fuzz%d' % k), dictfile, secs)
            info['coverage_guided'] = fs
            cov['evaluations'] += fs['fuzz_executions']
            unrep += u
            if v:
                violation = dict(v, stage=k)
                break
    if error:
        print(error, file=sys.stderr)
        return 2
    cov['rule'] = ' || '.join(dict.fromkeys(rules))
    cov['source_literals'] = {'total': nlit, 'not_in_baseline': nnew}
    cov['candidates_not_reproduced'] = unrep[:10]
    cov['build_s'] = round(build_s, 1)
    if not cov['samples']:
        cov['samples'] = ['(no sample recorded)']
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': chk['level'], 'coverage': cov,
          'assumptions': chk.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    for key, text in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if violation:
        st = chk['stages'][violation['stage']]
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (pid, sh_hash(violation['sub'], violation['choices'], violation['message'])[:10]))
        rep = dict(violation, property=pid, harness=st['src'], seed=SEED, tier=TIER,
                   rerun='python3 %s/run.py --replay %s' % (HERE, path))
        with open(path, 'w') as fp:
            json.dump(rep, fp, indent=1)
        print('---- %s violated (%s)' % (pid, violation['sub']))
        print(violation['trace'].rstrip()[:4000])
        print(violation['message'].rstrip()[:4000])
        print('(%s)' % violation['how'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s held: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)' %
          (pid, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0, build_s))
    if unrep:
        print('note: %d candidate(s) did not reproduce and were not believed; see the evidence' % len(unrep))
    return 0


def replay(path):
    rep = json.load(open(path))
    pid = rep['property']
    st = CHECKS[pid]['stages'][rep['stage']]
    variant = rep.get('variant', st.get('variant', 'asan'))
    exe = build([dict(st, key='m', variant=variant)])['m']
    work, bindir = scratch()
    try:
        dst = os.path.join(bindir, 'x')
        shutil.copy(exe, dst)
        os.chmod(dst, 0o755)
        if variant == 'fuzz':
            art = os.path.join(work, 'artifact')
            open(art, 'wb').write(bytes.fromhex(rep['artifact']))
            dictfile = os.path.join(work, 'dict')
            write_dict(dictfile)
            d = mkout(work, 'o')
            p = popen([dst, art], d, {'PBT_DICT': dictfile, 'PBT_OUT': d})
            p.wait()
            print('FAILS' if p.returncode else 'passes')
            return 1 if p.returncode else 0
        out = mkout(work, 'o')
        dictfile = os.path.join(work, 'dict')
        write_dict(dictfile)
        f = os.path.join(work, 'choices')
        open(f, 'w').write(' '.join(map(str, rep['choices'])))
        args = ['--only', rep['sub'], '--replay', f, '--dict', dictfile]
        if rep.get('tier') == 'thorough':
            args.append('--thorough')
        if rep.get('chunk'):
            args += ['--chunk', '%d:%d' % (rep['chunk']['start'], rep['chunk']['count'])]
        global SEED
        SEED = rep['seed']
        rc, text, log = engine(dst, out, args, 600, st.get('env'))
        print(text)
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(bindir, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ['--replay']:
        sys.exit(replay(a[1]))
    if a[:1] == ['--literals']:
        json.dump(scan_literals(), open(os.path.join(HERE, 'baseline_literals.json'), 'w'), indent=0, sort_keys=True)
        return
    if a[:1] == ['--setup']:
        want = []
        for pid, chk in CHECKS.items():
            for k, st in enumerate(chk['stages']):
                s = dict(st, key='%s-m%d' % (pid, k), variant=st.get('variant', 'asan'))
                if not s.get('optional'):
                    want.append(s)
        build(want)
        print('built %d harnesses' % len(want))
        return
    rc = 0
    for pid in a:
        rc = max(rc, check(pid))
    sys.exit(rc)


if __name__ == '__main__':
    main()

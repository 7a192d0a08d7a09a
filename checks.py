"""The checks: which harness in which build decides which property."""


import os

HERE = os.path.dirname(os.path.abspath(__file__))


def S(src, **kw):
    return dict(src=src, **kw)


SEARCH = 'Generated-input search: it explores, it does not prove; what was explored is counted in the evidence. Trusts the oracle in harness/%s, gcc and the sanitizers. '
PBT = 'property-based testing (random generation with shrinking, model oracle)'
SCHED = ('property-based testing over generated schedules (deterministic scheduler that can switch threads at every memory access; shrinkable interleavings), '
         'plus generated thread workloads under ThreadSanitizer')
FUZZ = PBT + ' plus coverage-guided fuzzing (libFuzzer) of the same property'

# the scheduler moves threads between stacks only through the kernel, so ASan needs no fibre support
SCHED_ENV = {}
W25 = ['open', 'close', 'read', 'pread', 'write', 'mmap', 'fcntl', 'stat', 'fstat', 'rename', 'unlink', 'mkdir', 'rmdir', 'opendir', 'readdir', 'access', 'lseek', 'fdopen', 'fsync', 'fdatasync']
W21 = ['open', 'close', 'mmap', 'munmap', 'fstat', 'stat', 'pread']
CHECKS = {
    'C01': dict(stages=[S('c01.cc', fuzz=True, scale=4), S('pure_t.cc', variant='tsan', cflags=['-DPURE=1'])], technique=FUZZ + '; ThreadSanitizer for concurrent callers',
                note=SEARCH % 'c01.cc' + 'The oracle is an independent reference encoder.'),
    'C02': dict(stages=[S('c02.cc', fuzz=True, scale=3), S('pure_t.cc', variant='tsan', cflags=['-DPURE=2'])], technique=FUZZ + '; ThreadSanitizer for concurrent callers',
                note=SEARCH % 'c02.cc' + 'Bounds are enforced by ASan red zones around exact-size blocks; the decoder oracle uses 128-bit arithmetic.'),
    'C03': dict(stages=[S('c03.cc', fuzz=True, scale=4), S('pure_t.cc', variant='tsan', cflags=['-DPURE=3'])], technique=FUZZ + '; ThreadSanitizer for concurrent callers',
                note=SEARCH % 'c03.cc' + 'The oracle is an independent reference hash plus the published vectors.'),
    'C04': dict(stages=[S('c04.cc', fuzz=True, scale=3), S('pure_t.cc', variant='tsan', cflags=['-DPURE=4'])], technique=FUZZ + '; ThreadSanitizer for concurrent callers',
                note=SEARCH % 'c04.cc' + 'The oracle is unsigned comparison written byte by byte.'),
    'C05': dict(stages=[S('c05.cc', fuzz=True, scale=3), S('pure_t.cc', variant='tsan', cflags=['-DPURE=5'])], technique=FUZZ + '; ThreadSanitizer for concurrent callers',
                note=SEARCH % 'c05.cc' + 'Leaks are judged by allocation accounting of the library calls; a moved-from status is unspecified.'),
    'C06': dict(stages=[S('c06.cc', fuzz=True, scale=3), S('pure_t.cc', variant='tsan', cflags=['-DPURE=6'])], technique=FUZZ + '; ThreadSanitizer for concurrent callers',
                note=SEARCH % 'c06.cc' + 'The oracle parses with 128-bit arithmetic.'),
    'C07': dict(stages=[S('c07.cc', fuzz=True, scale=4), S('pure_t.cc', variant='tsan', cflags=['-DPURE=7'])], technique=FUZZ + '; ThreadSanitizer for concurrent callers',
                note=SEARCH % 'c07.cc' + 'The oracle is an independent escaper plus the homomorphism law.'),
    'C08': dict(stages=[S('c08.cc', fuzz=True, scale=6), S('pure_t.cc', variant='tsan', cflags=['-DPURE=8'])], technique=FUZZ + '; ThreadSanitizer for concurrent callers',
                note=SEARCH % 'c08.cc' + 'Proportions are judged with an 8-sigma margin on 20000 draws.'),
    'C09': dict(stages=[S('c09.cc', fuzz=True), S('c09t.cc', variant='tsan')], technique=FUZZ + '; ThreadSanitizer for the concurrent part',
                note=SEARCH % 'c09.cc' + 'Real allocations are counted with malloc hooks; races are those ThreadSanitizer sees in the generated schedules.'),
    'C10': dict(stages=[S('c10.cc', fuzz=True)], technique=FUZZ,
                note=SEARCH % 'c10.cc' + 'The oracle is std::set under the same comparator; the comparison bound is 6*log2(n)+24 on average.'),
    'C11': dict(stages=[S('c11.cc', variant='sched', env=SCHED_ENV), S('c11t.cc', variant='tsan')],
                technique=SCHED,
                note=SEARCH % 'c11.cc' + 'The scheduler explores sequentially consistent interleavings; weak-memory effects are covered only by ThreadSanitizer\'s happens-before analysis.'),
    'C12': dict(stages=[S('c12.cc', fuzz=True, scale=3)], technique=FUZZ,
                note=SEARCH % 'c12.cc' + 'The oracle is a map of the latest live values; evictions are followed by their deletions.'),
    'C13': dict(stages=[S('c13.cc', fuzz=True, scale=3)], technique=FUZZ,
                note=SEARCH % 'c13.cc' + 'Handles are released before the cache is destroyed, as its contract requires.'),
    'C14': dict(stages=[S('c14.cc', fuzz=True, scale=1.5)], technique=FUZZ,
                note=SEARCH % 'c14.cc' + 'Partitions and their shares are measured on separate caches instead of assumed.'),
    'C15': dict(stages=[S('c15.cc', variant='sched', env=SCHED_ENV), S('c15t.cc', variant='tsan'), S('c15w.cc', variant='plain', defs=['-O3', '-DNDEBUG'])], technique=SCHED,
                note=SEARCH % 'c15.cc' + 'The interleaved stage judges every lookup by real-time order of the other operations on its key.'),
    'C16': dict(stages=[S('c16.cc', fuzz=True, scale=3)], technique=FUZZ,
                note=SEARCH % 'c16.cc' + 'Handles that were open when their file was overwritten, and listings of nested directories, are not judged.'),
    'C17': dict(stages=[S('c17.cc', variant='sched', env=SCHED_ENV), S('c17t.cc', variant='tsan')], technique=SCHED,
                note=SEARCH % 'c17.cc' + 'Histories of named files (up to 11 operations) are judged by searching for an explaining order (linearizability).'),
    'C18': dict(stages=[S('c18.cc', fuzz=True, wraps=['open', 'stat', 'fstat', 'mmap', 'lseek', 'pread', 'read'])], technique=FUZZ,
                note=SEARCH % 'c18.cc' + 'The files themselves, read with raw system calls, are compared with the appended bytes.'),
    'C19': dict(stages=[S('c19.cc', fuzz=True, scale=2, wraps=['write', 'pwrite', 'writev', 'fdatasync', 'fsync', 'close'])],
                technique=FUZZ + ' with injected faults',
                note=SEARCH % 'c19.cc' + 'Faults are injected where the library enters the C library (write, close, sync calls).'),
    'C20': dict(stages=[S('c20.cc', fuzz=True, scale=2, wraps=['open', 'write', 'pwrite', 'writev', 'fdatasync', 'fsync', 'syncfs'])],
                technique=FUZZ + ' over a simulated stable storage with injected faults',
                note=SEARCH % 'c20.cc' + 'Stable storage is simulated: what a sync call covered when the library made it; nothing else survives.'),
    'C21': dict(stages=[S('c21.cc', wraps=W21), S('c21s.cc', variant='sched', env=SCHED_ENV, wraps=W21), S('c21t.cc', variant='tsan')],
                technique=PBT + ' with injected faults; generated schedules (deterministic scheduler); ThreadSanitizer',
                note=SEARCH % 'c21.cc' + 'Limits are configured through EnvPosixTestHelper in a fresh process per case; mappings and descriptors are counted where the library takes them.'),
    'C22': dict(stages=[S('c22.cc', wraps=['fcntl', 'open']), S('c22s.cc', variant='sched', env=SCHED_ENV, wraps=['open', 'close', 'fcntl']), S('c22t.cc', variant='tsan')],
                technique=PBT + ' over histories of several processes; generated schedules (deterministic scheduler) with an outside observer; ThreadSanitizer',
                note=SEARCH % 'c22.cc' + 'Locks are observed from other processes with plain fcntl calls.'),
    'C23': dict(stages=[S('c23s.cc', variant='sched', env=SCHED_ENV), S('c23t.cc', variant='tsan')], technique=SCHED,
                note=SEARCH % 'c23s.cc' + 'Work that waits for its submitter to go on turns a blocking submission into a deadlock the scheduler sees.'),
    'C24': dict(stages=[S('c24.cc', wraps=['gettimeofday', 'clock_gettime', 'time']), S('c24s.cc', variant='sched', env=SCHED_ENV, wraps=['write']), S('c24t.cc', variant='tsan')],
                technique=PBT + '; generated schedules (deterministic scheduler); ThreadSanitizer',
                note=SEARCH % 'c24.cc' + 'The clock is shifted where the library reads it; the record must carry an instant of the call.'),
    'C25': dict(stages=[S('c25.cc', wraps=W25)],
                technique=PBT + ' with injected system call failures',
                note=SEARCH % 'c25.cc' + 'Failures are injected where the library calls the C library; calls it makes inside libc (stdio) are not reached.'),
    'C26': dict(stages=[S('c26.cc')], technique=PBT + ' with injected faults', note=SEARCH % 'c26.cc' + 'The environment beneath is a stand-in with generated fragments and failures, and both real ones.'),
    'C27': dict(stages=[S('c27.cc')], technique=PBT, note=SEARCH % 'c27.cc' + 'The wrapped environment is a stand-in that records every call.'),
    'C28': dict(stages=[S('c28s.cc', variant='sched', env=SCHED_ENV), S('c28t.cc', variant='tsan')], technique=SCHED,
                note=SEARCH % 'c28s.cc' + 'The system mutexes and conditions beneath are modelled by the scheduler (any waiter may be woken by a signal; waits may end unasked).'),
    'C29': dict(stages=[S('c29.cc', wraps=['gettimeofday', 'clock_gettime', 'time', 'nanosleep', 'clock_nanosleep', 'usleep', 'sleep'], ldflags=['-static-libstdc++']),
                        S('c29s.cc', variant='sched', env=SCHED_ENV)],
                technique=PBT + ' with a controlled clock; generated schedules (deterministic scheduler)',
                note=SEARCH % 'c29.cc' + 'Clock and sleeps are controlled where the library calls the C library; a sample of cases uses the real ones.'),
    'C30': dict(stages=[S('c30.cc')], technique=PBT + ' over process life cycles',
                note=SEARCH % 'c30.cc' + 'Each case is a process of its own, re-executed so that a constructor of the highest priority can use the library before any other initialiser.'),
    'C31': dict(stages=[S('c31.cc')], technique=PBT,
                note=SEARCH % 'c31.cc' + 'Runs as an unprivileged user, so that masks and modes mean something.'),
    'C32': dict(stages=[S('c32.cc', fuzz=True)], technique=FUZZ,
                note=SEARCH % 'c32.cc' + 'Neither snappy nor crc32c is installed here: one stage explores how their absence is reported, another one the code that uses them, over stand-ins (harness/stubs).'),
    'C33': dict(stages=[S('c33s.cc', variant='sched', env=SCHED_ENV), S('c33t.cc', variant='tsan')], technique=SCHED,
                note=SEARCH % 'c33s.cc' + 'Each thread is judged against a model of its own files; names that are fought over must have one winner.'),
}
# The same properties of the code for other platforms.
OTHER = dict(variant='asan', optional=True, cap=60, skip='huge')
HAVE_ALL = ('FDATASYNC', 'O_CLOEXEC')
STUBS = ['-isystem', os.path.join(HERE, 'harness', 'stubs')]
CHECKS['C32']['stages'].append(S('c32.cc', fuzz=True, config=HAVE_ALL + ('SNAPPY', 'CRC32C'), defs=STUBS, platform='snappy and crc32c are there (stand-ins)', **OTHER))
CHECKS['C19']['stages'].append(S('c19.cc', scale=0.6, wraps=CHECKS['C19']['stages'][0]['wraps'], config=('O_CLOEXEC',), platform='no fdatasync', **OTHER))
CHECKS['C20']['stages'].append(S('c20.cc', scale=0.6, wraps=CHECKS['C20']['stages'][0]['wraps'], config=('O_CLOEXEC',), platform='no fdatasync', **OTHER))
CHECKS['C20']['stages'].append(S('c20.cc', scale=0.6, wraps=CHECKS['C20']['stages'][0]['wraps'] + ['fcntl'], config=HAVE_ALL + ('FULLFSYNC',), defs=['-DF_FULLFSYNC=51'],
                                 platform='F_FULLFSYNC', **OTHER))
for _p in ('C01', 'C02', 'C03', 'C04', 'C06', 'C07'):
    CHECKS[_p]['stages'].append(S(CHECKS[_p]['stages'][0]['src'], scale=0.4, defs=['-funsigned-char'], platform='char is unsigned', **OTHER))
# The same properties of an optimised build without assertions.
for _p, _c in CHECKS.items():
    _s = _c['stages'][0]
    if _s.get('variant', 'asan') == 'asan':
        _c['stages'].append(dict({k: v for k, v in _s.items() if k != 'fuzz'}, variant='release', scale=_s.get('scale', 1) * 0.2, scale_thorough=0.2, cap=60))
    elif _s['variant'] == 'sched':
        _c['stages'].append(dict(_s, variant='sched-release', scale=_s.get('scale', 1) * 0.2, scale_thorough=0.2, cap=60))
for _c in CHECKS.values():
    _c.setdefault('level', 'exploration')

"""Builds the replay harnesses of /verif/fz against /repo's current sources and runs them."""
import os, subprocess, tempfile, time, shutil, re, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SAN = ['-fsanitize=address']
BASE = ['-g', '-O1', '-w', '-fno-omit-frame-pointer', '-I' + REPO, '-I' + VERIF + '/fz', '-D_GNU_SOURCE'] + SAN
LIBSRC = ['circular_buffer', 'pub', 'sub', 'rmc_protocol', 'rmc_sub_context', 'rmc_connection', 'rmc_log', 'rmc_pub_context',
          'rmc_pub_packet', 'rmc_pub_read', 'rmc_pub_timeout', 'rmc_pub_write', 'rmc_sub_packet', 'rmc_sub_read',
          'rmc_sub_timeout', 'rmc_sub_write', 'time']
# harness -> extra flags for the library sources
LIBFLAGS = {'netpub': ['-include', VERIF + '/fz/mock.h'], 'netsub': ['-include', VERIF + '/fz/mock.h'], 'subsim': ['-include', VERIF + '/fz/mockclock.h']}


class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-fz.')
        self.bins = {}
        self.err = {}

    def build(self, h):
        flags = LIBFLAGS.get(h, [])
        d = os.path.join(self.dir, h)
        os.mkdir(d)
        jobs = []
        srcs = [s for s in LIBSRC if os.path.exists('%s/%s.c' % (REPO, s))]
        # any further library source a change may have added
        for f in sorted(glob.glob(REPO + '/*.c')):
            b = os.path.basename(f)[:-2]
            if b not in srcs and not re.search(r'test|wireshark', b):
                srcs.append(b)
        for s in srcs:
            jobs.append(subprocess.Popen(['/usr/bin/clang-18'] + BASE + flags + ['-c', '%s/%s.c' % (REPO, s), '-o', '%s/r_%s.o' % (d, s)],
                                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        for s in ('common', h):
            jobs.append(subprocess.Popen(['/usr/bin/clang++-18', '-std=gnu++17'] + BASE + ['-c', '%s/fz/%s.cc' % (VERIF, s), '-o', '%s/h_%s.o' % (d, s)],
                                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        out = b''
        ok = True
        for j in jobs:
            o, _ = j.communicate()
            out += o
            ok = ok and j.returncode == 0
        if ok:
            p = subprocess.run(['/usr/bin/clang++-18'] + SAN + glob.glob(d + '/*.o') + ['-o', d + '/fz'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            ok = p.returncode == 0
            out += p.stdout
        if not ok:
            self.err[h] = out.decode(errors='replace')[-2000:]
            return None
        self.bins[h] = d + '/fz'
        return self.bins[h]

    def start(self, h, prop, secs, procs, seed):
        """start the harness; -> list of (Popen, argv)"""
        run = []
        for k in range(procs):
            argv = [self.bins[h], '-p', prop, '-t', str(secs), '-s', str(seed * 1000003 + k * 100000007)]
            run.append((subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.dir, preexec_fn=lambda: os.nice(5)), argv, h))
        return run

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def collect(run, limit):
    """-> (stats dict, failure or None)"""
    t0 = time.time()
    stats = {'histories': 0, 'stopped': 0}
    fail = None
    pend = list(run)
    outs = {}
    while pend and time.time() - t0 < limit:
        for x in list(pend):
            p, argv, h = x
            try:
                o, _ = p.communicate(timeout=0.05)
            except subprocess.TimeoutExpired:
                continue
            pend.remove(x)
            t = o.decode(errors='replace')
            m = re.search(r'OK histories=(\d+) stopped=(\d+)', t)
            if m and p.returncode == 0:
                stats['histories'] += int(m.group(1))
                stats['stopped'] += int(m.group(2))
            else:
                m = re.search(r'FAILED property=(\S+) seed=(\d+)\n(.*)', t)
                fail = {'harness': h, 'output': t[-12000:] if m is None else t[:60000], 'rc': p.returncode,
                        'seed': m.group(2) if m else None, 'what': m.group(3) if m else 'the program died', 'label': m.group(1) if m else 'crash'}
                break
        if fail:
            break
    for p, argv, h in pend:
        p.kill()
        p.communicate()
    return stats, fail

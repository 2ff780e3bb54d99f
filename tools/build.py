"""Out-of-tree build of /repo's pillowcore plus a harness program, with a sanitizer variant. Content-hash cached objects."""
import hashlib, os, subprocess, sys, fcntl, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PILLOW_REPO', '/repo')
QTI = '/usr/include/x86_64-linux-gnu/qt5'
MODS = ['QtCore', 'QtNetwork', 'QtScript']
COMMON = ['-fPIC', '-g1', '-fno-omit-frame-pointer', '-pthread', '-w', '-DPILLOWCORE_BUILD_STATIC', '-DPILLOW_ZLIB',
          '-DQT_CORE_LIB', '-DQT_NETWORK_LIB', '-DQT_SCRIPT_LIB']
VARIANTS = {
  'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all', '-fsanitize-address-use-after-scope'],
  'tsan': ['-O1', '-fsanitize=thread', '-DQT_NO_DEBUG'],
  'plain': ['-O1'],
}
COV = ['-fsanitize-coverage=inline-8bit-counters,pc-table']

class BuildError(Exception): pass

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-6000:])
    return r.stdout

def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:20]

def read(p):
    with open(p, 'rb') as f: return f.read()

def build(prog, variant='asan', sources=None, moc=()):
    """Build harness program `prog` from harness/<sources>; return path of the executable."""
    pc = os.path.join(REPO, 'pillowcore')
    out = os.path.join(V, 'build', variant); os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(V, 'build', '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    inc = ['-I' + QTI] + ['-I%s/%s' % (QTI, m) for m in MODS] + ['-I' + pc, '-I' + os.path.join(V, 'harness')]
    hdrs = sorted(glob.glob(pc + '/*.h') + glob.glob(pc + '/private/*.h') + glob.glob(pc + '/parser/*.h'))
    hh = digest(*[read(h) for h in hdrs], *[h for h in hdrs])
    myh = sorted(glob.glob(V + '/harness/*.h')); mh = digest(*[read(h) for h in myh])
    flags = COMMON + VARIANTS[variant]
    jobs = []   # (command, object)
    def job(src, extra, key):
        isc = src.endswith('.c')
        cmd = ['clang' if isc else 'clang++'] + ([] if isc else ['-std=c++11' if src.startswith(pc) or '/moc_' in src else '-std=c++14']) + flags + extra + inc + ['-c', src]
        o = os.path.join(out, os.path.basename(src) + '.' + digest(read(src), key, ' '.join(cmd)) + '.o')
        jobs.append((cmd + ['-o', o + '.tmp'], o)); return o
    core = []
    cov = COV if variant == 'asan' else []
    pch = ['-include', pc + '/pch.h']
    # Every C++/C source of the library directory and its parser, except the dead ragel output.
    srcs = sorted(glob.glob(pc + '/*.cpp') + glob.glob(pc + '/private/*.cpp')) + sorted(c for c in glob.glob(pc + '/parser/*.c') if os.path.basename(c) != 'thin.c')
    gen = os.path.join(out, 'gen-' + hh); os.makedirs(gen, exist_ok=True)
    mocs = []
    for h in hdrs:
        if b'Q_OBJECT' in read(h):
            m = os.path.join(gen, 'moc_' + os.path.basename(h)[:-2] + '.cpp')
            mocs.append((h, m))
    for s in srcs:
        if s.endswith('.cpp') and b'Q_OBJECT' in read(s):
            g = os.path.join(out, 'mocc-' + digest(read(s), hh)); os.makedirs(g, exist_ok=True)
            mocs.append((s, os.path.join(g, os.path.basename(s)[:-4] + '.moc')))
    def domoc(hm):
        h, m = hm
        if not os.path.exists(m):
            sh(['/usr/lib/qt5/bin/moc', '-DPILLOW_ZLIB', '-DQ_COMPILER_LAMBDA', '-DPILLOWCORE_BUILD_STATIC'] + inc + (['-f' + h] if h.endswith('.h') else []) + [h, '-o', m + '.tmp'])
            os.rename(m + '.tmp', m)
    with ThreadPoolExecutor(8) as ex: list(ex.map(domoc, mocs))
    for s in srcs:
        extra = list(cov)
        if s.endswith('.cpp'):
            extra += pch
            if b'Q_OBJECT' in read(s): extra += ['-I' + os.path.join(out, 'mocc-' + digest(read(s), hh))]
        core.append(job(s, extra, hh))
    for h, m in mocs:
        if m.endswith('.cpp'): core.append(job(m, pch, hh))
    mine = []
    for s in (sources or ['h.cpp', prog + '.cpp']):
        sp = os.path.join(V, 'harness', s); extra = list(pch) + ['-O0', '-fno-sanitize=undefined']
        if b'Q_OBJECT' in read(sp):
            g = os.path.join(out, 'hmoc-' + digest(read(sp), mh)); os.makedirs(g, exist_ok=True)
            m = os.path.join(g, s[:-4] + '.moc')
            if not os.path.exists(m): sh(['/usr/lib/qt5/bin/moc'] + inc + [sp, '-o', m])
            extra += ['-I' + g]
        mine.append(job(sp, extra, hh + mh))
    todo = sorted([j for j in jobs if not os.path.exists(j[1])], key=lambda j: -os.path.getsize(j[0][j[0].index('-c') + 1]) * (4 if '/harness/' in ' '.join(j[0]) else 1))
    def run(j):
        sh(j[0]); os.rename(j[1] + '.tmp', j[1])
    with ThreadPoolExecutor(8) as ex: list(ex.map(run, todo))
    exe = os.path.join(out, prog + '.' + digest(*core, *mine))
    if not os.path.exists(exe):
        sh(['clang++'] + VARIANTS[variant] + ['-pthread', '-o', exe + '.tmp'] + core + mine + ['-lQt5Script', '-lQt5Network', '-lQt5Core', '-lz', '-lssl', '-lcrypto'])
        os.rename(exe + '.tmp', exe)
    lock.close()
    return exe

if __name__ == '__main__':
    print(build(sys.argv[1], *(sys.argv[2:] or ['asan'])))

#!/usr/bin/env python3
"""Build the library from /repo's working tree with AddressSanitizer and link
check programs against it.   build.py ID [--fuzz]   prints the program's path.

Everything goes to /verif/build, keyed by the contents of what it is made from."""
import sys, os, re, hashlib, subprocess, glob, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', V + '/build')
CC, CXX = 'clang', 'clang++'
REDIR = ('malloc calloc realloc reallocarray free strdup strndup asprintf vasprintf posix_memalign aligned_alloc memalign '
         'time gettimeofday clock_gettime getrusage times clock write read openlog closelog syslog vsyslog gethostname uname fork pipe kill').split()

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write('build failed: %s\n%s\n' % (' '.join(cmd), r.stdout.decode(errors='replace')))
        sys.exit(2)
    return r.stdout

def digest(files, extra=''):
    h = hashlib.sha1(extra.encode())
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh: h.update(fh.read())
    return h.hexdigest()[:16]

def make(path, build):
    """build(tmpdir) fills a new directory, atomically put at path"""
    if os.path.exists(path + '/.done'):
        os.utime(path); return path
    os.makedirs(B, exist_ok=True)
    with open(path + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(path + '/.done'):
            shutil.rmtree(path, ignore_errors=True); os.makedirs(path)
            build(path); open(path + '/.done', 'w').close()
    return path

def prune():
    for pat, keep in (('lib-*', 4), ('hdr-*', 4), ('obj-*', 24), ('prog-*', 60)):
        ds = sorted((d for d in glob.glob(B + '/' + pat) if os.path.isdir(d)), key=os.path.getmtime, reverse=True)
        for d in ds[keep:]:
            if time.time() - os.path.getmtime(d) > 600:
                shutil.rmtree(d, ignore_errors=True)
                try: os.unlink(d + '.lock')
                except OSError: pass

def lib(fuzz=False):
    maa = REPO + '/maa'
    mk = open(maa + '/Makefile').read().replace('\\\n', ' ')
    m = re.search(r'^SRCS\s*=\s*(.*)$', mk, re.M)
    srcs = [s for s in m.group(1).split() if s.endswith('.c')]
    mc = open(REPO + '/Makefile.common').read() if os.path.exists(REPO + '/Makefile.common') else ''
    ver = {}
    for k in ('MAJOR', 'MINOR', 'TEENY'):
        x = re.search(r'MAA_%s\s*[:?+]?=\s*(\d+)' % k, mc + '\n' + mk); ver[k] = x.group(1) if x else '0'
    extra = sorted(f for f in glob.glob(maa + '/*') if os.path.isfile(f) and re.search(r'\.(c|h|txt|inc|def)$|arggram2c$', f))
    flags = ['-DHAVE_HEADER_SYS_RESOURCE_H=1', '-DHAVE_HEADER_ALLOCA_H=1', '-DSIZEOF_LONG=8'] + ['-DMAA_%s=%s' % i for i in ver.items()] + \
            ['-g', '-O1', '-fno-omit-frame-pointer', '-w', '-fsanitize=address', '-fno-common', '-std=gnu99']
    if fuzz: flags.append('-fsanitize=fuzzer-no-link')
    key = digest([__file__, maa + '/Makefile'] + extra, ' '.join(flags + srcs))
    def build(d):
        with open(maa + '/arggram.txt') as i, open(d + '/arggram.c', 'w') as o:
            r = subprocess.run(['awk', '-f', maa + '/arggram2c'], stdin=i, stdout=o)
            if r.returncode: sys.exit(2)
        args = []
        for s in REDIR: args += ['--redefine-sym', '%s=vf_%s' % (s, s)]
        def cc(s):
            o = d + '/' + s[:-2] + '.o'
            os.makedirs(os.path.dirname(o), exist_ok=True)
            r = subprocess.run([CC] + flags + ['-I' + maa, '-I' + d, '-c', maa + '/' + s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: return r.stdout.decode(errors='replace')
            r = subprocess.run(['objcopy'] + args + [o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return r.stdout.decode(errors='replace') if r.returncode else None
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            bad = [e for e in ex.map(cc, srcs) if e]
        if bad: sys.stderr.write('build failed:\n' + '\n'.join(bad)); sys.exit(2)
        run(['ar', 'rcs', d + '/libmaa.a'] + [d + '/' + s[:-2] + '.o' for s in srcs])
    return make(B + '/lib-' + key, build)

def header():
    """maa.h for C++, where a struct and a pointer typedef cannot share a name"""
    h = REPO + '/maa/maa.h'
    def build(d):
        t = open(h).read()
        t = re.sub(r'typedef\s+struct\s+(\w+)\s*\{', lambda m: 'typedef struct %s_tag {' % m.group(1), t)
        open(d + '/maa.h', 'w').write(t)
    return make(B + '/hdr-' + digest([__file__, h]), build)

def obj(src, fuzz=False):
    flags = ['-std=c++17', '-O1', '-g', '-Wall', '-Wno-unused-function', '-fno-pie', '-I' + V + '/engine', '-I' + header()]
    if fuzz: flags += ['-DPBT_FUZZ']
    key = digest([__file__, src, REPO + '/maa/maa.h'] + sorted(glob.glob(V + '/engine/*.h') + glob.glob(V + '/checks/*.h')), ' '.join(flags))
    def build(d): run([CXX] + flags + ['-c', src, '-o', d + '/o.o'])
    return make(B + '/obj-' + os.path.basename(src)[:-4] + '-' + key, build) + '/o.o'

def helper():
    src = V + '/engine/helper.c'
    def build(d): run(['gcc', '-O1', '-static', '-w', src, '-o', d + '/helper'])
    return make(B + '/helper-' + digest([__file__, src]), build) + '/helper'

def program(ident, fuzz=False):
    with ThreadPoolExecutor(4) as ex:
        fl = ex.submit(lib, fuzz)
        fo = [ex.submit(obj, s, fuzz) for s in (V + '/checks/%s.cpp' % ident, V + '/engine/pbt.cpp', V + '/engine/shim.cpp')]
        l = fl.result(); o = [f.result() for f in fo]
    key = digest([__file__, V + '/engine/helper.c'] , ' '.join([l] + o + [str(fuzz)]))
    h = helper()
    def build(d):
        shutil.copy(h, d + '/helper')
        run([CXX, '-no-pie', '-g', '-fsanitize=address' + (',fuzzer' if fuzz else '')] + o + [l + '/libmaa.a', '-o', d + '/' + ident])
    p = make(B + '/prog-' + ident + ('-fuzz' if fuzz else '') + '-' + key, build)
    return p + '/' + ident

if __name__ == '__main__':
    a = sys.argv[1:]
    fuzz = '--fuzz' in a
    ids = [x for x in a if not x.startswith('--')]
    if '--all' in a:
        ids = sorted(os.path.basename(f)[:-4] for f in glob.glob(V + '/checks/C*.cpp'))
        lib()
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(program, ids))
    else:
        for i in ids: print(program(i, fuzz))
    prune()

#!/usr/bin/env python3
"""thorough.py ID PROGRAM: the thorough tier of one check.

1. For the targets that run inside one process, a coverage-guided campaign
   (libFuzzer; the same property code, the choices decoded from the bytes, the
   library built with coverage instrumentation and ASan), the corpus empty at
   the start.  A crash is turned into a choice sequence and confirmed by the
   engine itself before it is reported.
2. The random search of the engine with the thorough numbers of cases."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
ident, prog = sys.argv[1:3]
seed = int(os.environ.get('VERIF_SEED') or 1)
total = float(os.environ.get('VERIF_THOROUGH_S') or 800)
t0 = time.time()
env = dict(os.environ, VERIF_DIR=V, VERIF_TIER='thorough')
lst = [l.rsplit(' ', 1) for l in subprocess.run([prog, '--list'], stdout=subprocess.PIPE, text=True, env=env).stdout.splitlines()]
fuzzable = [n for n, f in lst if f == '1']
workers = max(2, min(8, os.cpu_count() or 4))
summary, rc = [], 0

def confirm(dump, target):
    """True if the engine finds the failure again"""
    global rc
    try: d = json.load(open(dump))
    except (OSError, ValueError): return False
    if not d['choices'] or d['target'] != target: return False
    d['property'] = ident; d['found_by'] = 'libFuzzer'
    os.makedirs(V + '/replays', exist_ok=True)
    name = V + '/replays/%s-fuzz-%08x.json' % (ident, abs(hash(tuple(d['choices']))) & 0xffffffff)
    with open(name, 'w') as f:     # the form the engine reads
        f.write('{"property": %s,\n "target": %s,\n "seed": %d,\n "choices": [%s]}\n' % (json.dumps(ident), json.dumps(target), seed, ','.join(map(str, d['choices']))))
    r = subprocess.run([prog, '--replay', name], stdout=subprocess.PIPE, text=True, env=env)
    if r.returncode == 1 and 'VIOLATION' in r.stdout:
        sys.stdout.write(r.stdout); sys.stdout.flush(); return True
    os.unlink(name); return False

if fuzzable:
    p = subprocess.run([sys.executable, V + '/build.py', ident, '--fuzz'], stdout=subprocess.PIPE, text=True)
    if p.returncode: sys.exit(2)
    fz = p.stdout.split('\n')[-2]
    each = total * 0.35 / len(fuzzable)
    for n in fuzzable:
        if rc: break
        tmp = tempfile.mkdtemp(prefix='verif-fuzz-')
        try:
            os.mkdir(tmp + '/corpus'); ps = []
            for w in range(workers):
                d = tmp + '/w%d' % w; os.mkdir(d)
                e = dict(env, PBT_TARGET=n, PBT_DUMP=d + '/dump', TMPDIR=d)
                ps.append(subprocess.Popen([fz, tmp + '/corpus', '-seed=%d' % (seed * 64 + w + 1), '-max_total_time=%d' % each, '-max_len=%d' % (300 if w % 2 else 4000), '-len_control=%d' % (100 if w % 4 < 2 else 0),
                    '-reload=1', '-timeout=60', '-rss_limit_mb=3000', '-print_final_stats=1', '-artifact_prefix=' + d + '/'], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(d + '/log', 'w')))
            end = time.time() + each + 120; units = cov = 0; bad = []
            for w, q in enumerate(ps):
                try: q.wait(max(1, end - time.time()))
                except subprocess.TimeoutExpired: q.kill(); q.wait()
            for w, q in enumerate(ps):
                log = open(tmp + '/w%d/log' % w, errors='replace').read()
                m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', log); k = re.findall(r'^#(\d+)', log, re.M)
                units += int(m[-1]) if m else int(k[-1]) if k else 0
                c = re.findall(r'cov: (\d+)', log); cov = max(cov, int(c[-1]) if c else 0)
                if q.returncode: bad.append(w)
            found = False
            for w in bad:
                if not found and confirm(tmp + '/w%d/dump' % w, n): found = True; rc = 1
            if bad and not found:
                sys.stderr.write('%s/%s: %d fuzzing processes stopped early without a confirmed failure\n' % (ident, n, len(bad)))
                sys.stderr.write(open(tmp + '/w%d/log' % bad[0], errors='replace').read()[-1500:] + '\n')
            summary.append('%s: libFuzzer, %d processes for %d s, %d inputs, %d edges covered, %d inputs kept, %d stopped early' % (n, workers, each, units, cov, len(os.listdir(tmp + '/corpus')), len(bad)))
            sys.stderr.write(ident + '/' + summary[-1] + '\n')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
left = max(60, total - (time.time() - t0)) if not rc else 20
env['PBT_FUZZ_SUMMARY'] = '; '.join(summary)
r = subprocess.run([prog, '--thorough', '--budget', '%d' % left], env=env)
sys.exit(rc or r.returncode)

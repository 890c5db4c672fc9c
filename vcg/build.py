"""Builds, from /repo's working tree, the LLVM IR that is verified and the native replay driver."""
import os, re, subprocess, glob, threading, time

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++-18'
# IR as the compiler front end emits it: no optimisation pass touches the program
IRFLAGS = ['-std=c++17', '-O0', '-gline-tables-only', '-DNDEBUG', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-w']
NATFLAGS = ['-std=c++17', '-O1', '-g1', '-DNDEBUG', '-w', '-fsanitize=address', '-fno-sanitize-recover=all']


def sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        if os.path.basename(d) in ('test', 'tests'):
            continue
        for f in sorted(fs):
            if f.endswith(('.cc', '.cpp')) and 'test' not in f.lower():
                out.append(os.path.join(d, f))
    return out


def run_all(cmds, jobs=8, timeout=400):
    """run commands in parallel; -> list of (cmd, rc, stderr)"""
    res = [None] * len(cmds)
    it = iter(range(len(cmds)))
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                i = next(it, None)
            if i is None:
                return
            try:
                p = subprocess.run(cmds[i], capture_output=True, text=True, timeout=timeout)
                res[i] = (cmds[i], p.returncode, p.stderr)
            except subprocess.TimeoutExpired:
                res[i] = (cmds[i], 99, 'timeout')
    th = [threading.Thread(target=work) for _ in range(jobs)]
    [t.start() for t in th]
    [t.join() for t in th]
    return res


def sections():
    s = open(os.path.join(HERE, 'harness', 'inst.cc')).read()
    parts = s.split('//@section ')
    head = parts[0]
    out = []
    for p in parts[1:]:
        name, body = p.split('\n', 1)
        body = body.rstrip()
        if p is parts[-1]:
            body = body[:body.rindex('}')]
        out.append((name, head + body + '\n}\n'))
    return out


class BuildError(Exception):
    pass


def without(cmd, src, err):
    """a section of the harness that does not compile: leave the entry points out that the compiler
    rejects (the units that need one of them are then undecided), keep the others"""
    for _ in range(4):
        lines = open(src).read().split('\n')
        bad = {int(m) for m in re.findall(re.escape(os.path.basename(src)) + r':(\d+):\d+: ', err)}
        bad = {i for i in bad if 0 < i <= len(lines) and re.match(r'[\w:].*\bvh_|VH_', lines[i - 1])}
        if not bad:
            return
        for i in bad:
            lines[i - 1] = ''
        open(src, 'w').write('\n'.join(lines))
        p = subprocess.run(cmd, capture_output=True, text=True)
        if not p.returncode:
            return
        err = p.stderr


def build_ir(out, jobs=8, include_harness=True):
    """-> (list of .ll files, missing harness sections)"""
    os.makedirs(out, exist_ok=True)
    cmds = []
    names = []
    for f in sources():
        o = os.path.join(out, os.path.relpath(f, os.path.join(REPO, 'src')).replace('/', '_') + '.ll')
        cmds.append([CLANG] + IRFLAGS + ['-I' + os.path.join(REPO, 'src'), f, '-o', o])
        names.append((f, o))
    hs = []
    for n, body in sections() if include_harness else []:
        c = os.path.join(out, 'inst_%s.cc' % n)
        open(c, 'w').write(body)
        o = os.path.join(out, 'zz_inst_%s.ll' % n)
        cmds.append([CLANG] + IRFLAGS + ['-I' + os.path.join(REPO, 'src'), c, '-o', o])
        hs.append((n, o))
    res = run_all(cmds, jobs)
    missing = []
    for (f, o), r in zip(names, res):
        if r[1]:
            raise BuildError('%s does not compile: %s' % (f, r[2][:500]))
    for (n, o), r in zip(hs, res[len(names):]):
        if r[1]:
            missing.append((n, r[2][:300]))
            if os.path.exists(o):
                os.unlink(o)
            without(r[0], os.path.join(out, 'inst_%s.cc' % n), r[2])
    return sorted(glob.glob(os.path.join(out, '*.ll'))), missing


def build_native(out, jobs=4):
    os.makedirs(out, exist_ok=True)
    cmds, objs = [], []
    for f in [os.path.join(HERE, 'native', 'driver.cc')] + sources():
        o = os.path.join(out, f.replace('/', '_') + '.o')
        objs.append(o)
        cmds.append(['/usr/bin/g++'] + NATFLAGS + ['-I' + os.path.join(REPO, 'src'), '-c', f, '-o', o])
    for c, rc, err in run_all(cmds, jobs):
        if rc:
            raise BuildError('native build: ' + err[:800])
    drv = os.path.join(out, 'drv')
    p = subprocess.run(['/usr/bin/g++', '-fsanitize=address'] + objs + ['-o', drv], capture_output=True, text=True)
    if p.returncode:
        raise BuildError('native link: ' + p.stderr[:800])
    return drv

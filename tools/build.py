#!/usr/bin/env python3
"""Builds the simulator and the application under test into /verif/build.

Everything is keyed by a hash of its sources, so any change in the working tree of /repo is rebuilt.
Use as a module (build(kind)) or: build.py [plain|asan]; REPO selects another tree than /repo.
"""
import concurrent.futures, fcntl, hashlib, os, re, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, 'build')


class AppBuildError(Exception):
    pass


def sources(root, sub, ext):
    out = []
    for d, _, fs in os.walk(os.path.join(root, sub)):
        out += [os.path.join(d, f) for f in fs if f.endswith(ext)]
    return sorted(out)


def digest(*groups):
    h = hashlib.sha256()
    for g in groups:
        if isinstance(g, str):
            h.update(g.encode() + b'\0')
        else:
            root, files = g
            for f in files:
                h.update(os.path.relpath(f, root).encode() + b'\0')
                with open(f, 'rb') as x:
                    h.update(x.read() + b'\0')
    return h.hexdigest()[:20]


def run_all(cmds):
    def one(c):
        return c, subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for c, r in ex.map(one, cmds):
            if r.returncode:
                return ' '.join(c) + '\n' + r.stdout
    return None


def discard(path):
    path = os.path.realpath(path)
    if os.path.dirname(path) == os.path.realpath(B) and os.path.basename(path).startswith(('sim-', 'app-')):
        shutil.rmtree(path, ignore_errors=True)


def version(repo):
    text = open(os.path.join(repo, 'Makefile')).read()
    v = []
    for k, d in zip('MNP', (0, 0, 5)):
        m = re.search(r'^\s*APPVERSION_%s\s*[:?]?=\s*(\d+)' % k, text, re.M)
        v.append(int(m.group(1)) if m else d)
    return v


def build(kind, repo=None):
    """kind: 'plain' or 'asan'. Returns (simulator, nano x image, nano s image)."""
    repo = os.path.realpath(repo or os.environ.get('REPO', '/repo'))
    asan = kind == 'asan'
    os.makedirs(B, exist_ok=True)
    me = open(os.path.abspath(__file__)).read()
    ma, mi, pa = version(repo)
    vs = '%d.%d.%d' % (ma, mi, pa)
    simsrc = sources(V, 'sim', ('.cpp', '.hpp'))
    sdksrc = sources(V, 'sdk', ('.c', '.h'))
    appsrc = sources(repo, 'src', ('.c', '.h'))
    sd = os.path.join(B, 'sim-' + kind + '-' + digest(me, vs, (V, simsrc), (V, sdksrc)))
    ad = os.path.join(B, 'app-' + kind + '-' + digest(me, vs, (repo, appsrc), (V, sdksrc), repo))
    with open(os.path.join(B, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs, link = [], []
        sim = os.path.join(sd, 'sim')
        ims = [os.path.join(ad, 'nanox.so'), os.path.join(ad, 'nanos.so')]
        need_sim, need_app = not os.path.exists(sd + '/ok'), not os.path.exists(ad + '/ok')
        if need_sim:
            discard(sd)
            os.makedirs(sd)
            fl = ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DSIM_ASAN'] if asan else ['-O2']
            vd = ['-DAPP_MAJOR=%d' % ma, '-DAPP_MINOR=%d' % mi, '-DAPP_PATCH=%d' % pa, '-DAPP_VERSION="%s"' % vs]
            objs = []
            for f in simsrc:
                if f.endswith('.cpp'):
                    o = os.path.join(sd, os.path.basename(f) + '.o')
                    objs.append(o)
                    jobs.append(['clang++', '-g1', '-std=c++17', '-w', *fl, *vd, '-c', f, '-o', o])
            link.append(['clang++', '-rdynamic', *(['-fsanitize=address,undefined'] if asan else []), *objs, '-o', sim, '-ldl'])
        if need_app:
            discard(ad)
            os.makedirs(ad)
            base = ['clang', '-g1', '-fPIC', '-fno-strict-aliasing', '-fno-omit-frame-pointer', '-std=gnu11', '-w', '-Wno-error', '-Wno-implicit-function-declaration', '-Wno-int-conversion',
                    '-Wno-incompatible-function-pointer-types', '-include', os.path.join(V, 'sdk/include/sim_prelude.h'), '-DHAVE_BAGL', '-DAPPNAME="Ergo"',
                    '-DAPPVERSION="%s"' % vs, '-DMAJOR_VERSION=%d' % ma, '-DMINOR_VERSION=%d' % mi, '-DPATCH_VERSION=%d' % pa,
                    '-I' + os.path.join(V, 'sdk/include'), '-I' + os.path.join(repo, 'src')]
            san = ['-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow,nonnull-attribute,function', '-fno-sanitize-recover=undefined']
            # Nano S starts with every local variable filled; the twins ...x2 and ...s2 do it the other way round
            fill = ['-ftrivial-auto-var-init=pattern']
            kinds = [('x', ['-O1']), ('s', ['-O1' if asan else '-Os', '-DTARGET_NANOS', *fill])]
            if not asan:
                kinds += [('x2', ['-O1', *fill]), ('s2', ['-Os', '-DTARGET_NANOS'])]
            for tag, opts in kinds:
                objs = []
                for root, files in ((repo, appsrc), (V, sdksrc)):
                    for f in files:
                        if f.endswith('.c'):
                            o = os.path.join(ad, tag + '_' + re.sub(r'[^A-Za-z0-9]', '_', ('app/' if root == repo else 'sdk/') + os.path.relpath(f, root)) + '.o')
                            objs.append(o)
                            jobs.append([*base, *opts, *(san if asan else []), '-c', f, '-o', o])
                link.append(['clang', '-shared', '-Wl,-Bsymbolic', *(['-fsanitize=address,undefined'] if asan else []), *objs, '-o', os.path.join(ad, 'nano%s.so' % tag)])
        err = run_all(jobs) or run_all(link)
        if err:
            discard(sd) if need_sim else None
            discard(ad) if need_app else None
            raise AppBuildError(err)
        for need, d in ((need_sim, sd), (need_app, ad)):
            if need:
                for f in os.listdir(d):
                    if f.endswith('.o'):
                        os.unlink(os.path.join(d, f))
        if need_sim:
            r = subprocess.run([sim, 'selftest'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError('simulator self-test failed:\n' + r.stdout)
        for d in (sd, ad):
            open(d + '/ok', 'w').close()
            os.utime(d)
        old = sorted((os.path.join(B, d) for d in os.listdir(B) if d.startswith(('sim-', 'app-'))), key=os.path.getmtime)
        for d in old[:-14]:
            discard(d)
    return sim, ims[0], ims[1]


if __name__ == '__main__':
    for k in sys.argv[1:] or ['plain', 'asan']:
        print(*build(k))

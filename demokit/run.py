"""Compiles the application from ./src onto the simulated device beside this file, in a scratch folder, and runs demo.cpp."""
import concurrent.futures, os, re, subprocess, sys, tempfile

KIT = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(KIT)
REPO = os.getcwd()


def files(d, ext):
    return sorted(os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs if f.endswith(ext))


def run(c):
    return c, subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


with tempfile.TemporaryDirectory() as w:
    app, exe = os.path.join(w, 'app.so'), os.path.join(w, 'demo')
    jobs, ao, eo = [], [], []
    for i, f in enumerate(files(os.path.join(REPO, 'src'), '.c') + files(os.path.join(KIT, 'sdk'), '.c')):
        ao.append(os.path.join(w, 'a%d.o' % i))
        jobs.append(['clang', '-O1', '-fPIC', '-fno-strict-aliasing', '-std=gnu11', '-w', '-Wno-error', '-Wno-implicit-function-declaration', '-Wno-int-conversion',
                     '-Wno-incompatible-function-pointer-types', '-include', os.path.join(KIT, 'sdk/include/sim_prelude.h'), '-DHAVE_BAGL', '-DAPPNAME="Ergo"', '-DAPPVERSION="0.0.5"',
                     '-DMAJOR_VERSION=0', '-DMINOR_VERSION=0', '-DPATCH_VERSION=5', '-I' + os.path.join(KIT, 'sdk/include'), '-I' + os.path.join(REPO, 'src'), '-c', f, '-o', ao[-1]])
    for i, f in enumerate([os.path.join(KIT, 'sim/device.cpp'), os.path.join(KIT, 'sim/crypto.cpp'), os.path.join(KIT, 'main.cpp'), os.path.join(TOP, 'demo.cpp')]):
        eo.append(os.path.join(w, 'e%d.o' % i))
        jobs.append(['clang++', '-O1', '-std=c++17', '-w', '-I' + KIT, '-c', f, '-o', eo[-1]])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        done = list(ex.map(run, jobs))
    done += [run(['clang', '-shared', '-Wl,-Bsymbolic', *ao, '-o', app]), run(['clang++', '-rdynamic', *eo, '-o', exe, '-ldl'])]
    for c, r in done:
        if r.returncode:
            print(' '.join(c) + '\n' + r.stdout)
            sys.exit(4)
    r = subprocess.run(['setarch', '-R', exe, app] if subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0 else [exe, app], timeout=120)
    sys.exit(r.returncode if r.returncode >= 0 else 1)

#!/usr/bin/env python3
"""plant.py [ID...] : writes /verif/seeded/<id>/ from bugs/<id>.py and validates it in a scratch copy of /repo.

A bug file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old text, new text), ...] and DEMO (the body of demo.cpp).
Options: --no-tests skips the repository's tests, --checks runs the property's own quick search, --all also a tenth of every other property's,
--table writes the rows of an --all run into the table in DESIGN.md, --dry keeps seeded/ as it is.
"""
import concurrent.futures, json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check  # noqa: E402
REPO = '/repo'
PROPS = ['C%02d' % i for i in range(1, 18)] + ['C20']


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def write(bid, work, dry):
    b = runpy.run_path(os.path.join(V, 'bugs', bid + '.py'))
    for f, old, new in b['EDITS']:
        p = os.path.join(work, f)
        t = open(p).read()
        assert t.count(old) == 1, (bid, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git diff', cwd=work).stdout
    sh('git checkout -- .', cwd=work)
    d = os.path.join(V, 'seeded', bid)
    if dry:
        return b, d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'kit'))
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write('#include "kit.hpp"\n' + b['DEMO'])
    json.dump({'property': b['PROPERTY'], 'needs': b['NEEDS'], 'what_it_breaks': b['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.copytree(V + '/sdk', d + '/kit/sdk')
    os.makedirs(d + '/kit/sim')
    for f in ('device.cpp', 'device.hpp', 'crypto.cpp', 'crypto.hpp'):
        shutil.copy(V + '/sim/' + f, d + '/kit/sim/' + f)
    for f in ('kit.hpp', 'main.cpp', 'run.py'):
        shutil.copy(V + '/demokit/' + f, d + '/kit/' + f)
    shutil.copy(V + '/demokit/demo.sh', d + '/demo.sh')
    os.chmod(d + '/demo.sh', 0o755)
    return b, d


def tests(work, tmp):
    os.makedirs(tmp, exist_ok=True)
    for f in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('bash /opt/vp/build.sh', 'bash %s/build.sh' % tmp).replace('/repo', work)
        open(os.path.join(tmp, f), 'w').write(t)
    out = os.path.join(tmp, 'tests.json')
    r = sh('bash %s/test.sh %s' % (tmp, out))
    if not os.path.exists(out):
        return 'build failed ' + r.stdout[-1500:]
    miss = passed(json.load(open('/opt/vp/BASELINE.json'))) - passed(json.load(open(out)))
    return 'tests ' + ('pass' if not miss else 'FAIL %s' % sorted(miss)[:4])


def passed(o):
    for k in ('stable', 'passed', 'pass', 'tests'):
        if isinstance(o, dict) and k in o:
            return set(o[k]) if not isinstance(o[k], dict) else {t for t, v in o[k].items() if v in (True, 'pass', 'passed', 'PASS')}
    raise SystemExit('unknown result format: ' + str(o)[:300])


def search(work, tmp, props, own):
    """The quick search of the bug's own property and a tenth of it for the others; returns {property: first deviation}."""
    got = {}
    built = {}
    for p in props:
        for kind, runs, secs in check.QUICK_OF.get(p, check.QUICK):
            if kind not in built:
                built[kind] = sh('python3 %s/tools/build.py %s' % (V, kind), env=dict(os.environ, REPO=work)).stdout.split()[-3:]
            sim, a0, a1 = built[kind]
            r = sh('%s check prop=%s seed=1 runs=%d time=%d workers=8 app0=%s app1=%s out=%s stats=%s/st.json fast=1' % (sim, p, runs if p == own else runs // 10, secs, a0, a1, tmp, tmp))
            if r.returncode:
                got[p] = '' if r.returncode == 1 else '(exit %d) ' % r.returncode
                got[p] += (r.stdout.strip().splitlines() or [''])[-1][:200]
                break
    return got


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    rows = []
    for bid in args or sorted(f[:-3] for f in os.listdir(V + '/bugs') if f.endswith('.py')):
        tmp = tempfile.mkdtemp(prefix='plant.')
        work = tmp + '/repo'
        try:
            shutil.copytree(REPO, work, symlinks=True, ignore=shutil.ignore_patterns('_build'))
            b, d = write(bid, work, '--dry' in sys.argv)
            r0 = sh('bash %s/demo.sh' % d, cwd=work)
            line = '%s %s: clean demo %d' % (bid, b['PROPERTY'], r0.returncode)
            a = sh('git apply %s/patch.diff' % d, cwd=work)
            assert a.returncode == 0, a.stdout
            r1 = sh('bash %s/demo.sh' % d, cwd=work)
            line += ', planted demo %d' % r1.returncode
            if '--no-tests' not in sys.argv:
                line += ', ' + tests(work, tmp + '/vp')
            if '--checks' in sys.argv or '--all' in sys.argv:
                got = search(work, tmp, PROPS if '--all' in sys.argv else [b['PROPERTY']], b['PROPERTY'])
                for p, t in got.items():
                    line += '\n   %s %s' % (p, t)
                if b['PROPERTY'] not in got:
                    line += '\n   %s MISSED' % b['PROPERTY']
                rows.append((bid, b, got))
            print(line, flush=True)
            if r0.returncode or r1.returncode == 0:
                print('   clean: ' + r0.stdout[-600:] + '\n   planted: ' + r1.stdout[-600:])
            elif '-v' in sys.argv or r1.returncode > 1:
                print('   planted: ' + r1.stdout[-400:])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if '--table' in sys.argv:
        done = set(r[0] for r in rows)
        t = []
        for bid, b, got in rows:
            own = b['PROPERTY']
            t.append('| %s | %s | %s | %s | %s |' % (bid, own, b['BREAKS'], 'caught' if own in got else 'MISSED', ', '.join(p for p in got if p != own) or '-'))
        p = V + '/DESIGN.md'
        s = open(p).read()
        h, r = s.split('<!-- catch table -->')
        old, e = r.split('<!-- end -->')
        old = old.strip().split('\n')
        t = old[:2] + sorted(t + [l for l in old[2:] if l.split()[1] not in done])
        open(p, 'w').write(h + '<!-- catch table -->\n' + '\n'.join(t) + '\n<!-- end -->' + e)


main()

#!/opt/venv/bin/python
"""seed.py SPEC.py...: make and confirm planted bugs (see /verif/seeded).

A spec defines BUGS = [dict(id, property, file, old, new, demo, needs, breaks)];
edits may also be given as edits=[(file, old, new), ..]."""
import json, os, re, shutil, subprocess, sys, tempfile
OUT = '/verif/seeded'
STABLE = None


def tests(root, tmp):
    env = dict(os.environ, XDG_DATA_HOME=tmp + '/data', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TMPDIR=tmp)
    os.makedirs(tmp + '/data', exist_ok=True)
    bad = set()
    for extra in ([], ['-o', 'norecursedirs=venv', 'tests/manual']):
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors',
                            '-rfE', '--tb=no'] + extra, cwd=root, env=env, capture_output=True, text=True)
        bad |= set(re.findall(r'^(?:FAILED|ERROR) (\S+)', r.stdout, re.M))
    return bad


def demo(root, folder, tmp):
    env = dict(os.environ, XDG_DATA_HOME=tmp + '/data', PYTHONDONTWRITEBYTECODE='1', TMPDIR=tmp)
    r = subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=root, env=env, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main():
    only = None
    specs = []
    for a in sys.argv[1:]:
        if a.endswith('.py'):
            ns = {}
            exec(open(a).read(), ns)
            specs += ns['BUGS']
        else:
            only = a
    tmp = tempfile.mkdtemp(prefix='seed-')
    base = None
    try:
        for b in specs:
            if only and only != b['id']:
                continue
            work = os.path.join(tmp, 'repo')
            shutil.rmtree(work, True)
            subprocess.run(['cp', '-a', '/repo', work], check=True)
            if base is None:
                base = tests(work, tmp)
            edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
            ok = True
            for f, old, new in edits:
                p = os.path.join(work, f)
                s = open(p, encoding='utf-8').read()
                if s.count(old) != 1:
                    print(b['id'], 'EDIT DOES NOT APPLY (%d)' % s.count(old), f)
                    ok = False
                    break
                open(p, 'w', encoding='utf-8').write(s.replace(old, new))
            if not ok:
                continue
            diff = subprocess.run(['git', '-C', work, 'diff'], capture_output=True, text=True).stdout
            folder = os.path.join(tmp, b['id'])
            os.makedirs(folder)
            open(folder + '/patch.diff', 'w').write(diff)
            open(folder + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + b['demo'].lstrip('\n'))
            open(folder + '/demo.sh', 'w').write(
                '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n'
                'export XDG_DATA_HOME="$t" HOME="$t" PYTHONDONTWRITEBYTECODE=1\n'
                '/opt/venv/bin/python -W ignore "$d/demo.py"\n')
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(folder + '/meta.json', 'w'), indent=1)
            r1, o1 = demo(work, folder, tmp)
            r0, o0 = demo('/repo', folder, tmp)
            new = tests(work, tmp) - base
            good = r1 != 0 and r0 == 0 and not new
            print(b['id'], 'OK' if good else 'REJECTED', 'demo clean=%d patched=%d newfail=%s' % (r0, r1, sorted(new)[:3]))
            if not good:
                print('  clean:', o0, '\n  patched:', o1)
                continue
            dst = os.path.join(OUT, b['id'])
            shutil.rmtree(dst, True)
            shutil.copytree(folder, dst)
    finally:
        shutil.rmtree(tmp, True)


main()

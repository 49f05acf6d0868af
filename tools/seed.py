"""Author a planted bug: seed.py <id> <spec.py>.

The spec module defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)],
and DEMO (python source run by demo.sh with /repo's sources importable; it must
exit 0 on the unchanged tree and non-zero with the patch).  The bug is kept
only if, in a scratch copy, the edit applies, the stable tests pass and the
demo behaves as required on both trees.  No check reads /verif/seeded.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env,
                          capture_output=True, text=True)

def stable_ok(root):
    """Every stable test of the baseline passes in the tree."""
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    env = dict(os.environ, PYTHONPATH=os.path.join(root, 'src'),
               PYTHONDONTWRITEBYTECODE='1')
    r = sh('/opt/venv/bin/python -m pytest -v --no-header -p no:cacheprovider '
           'tests', cwd=root, env=env)
    got = set()
    for line in r.stdout.splitlines():
        if ' PASSED' in line:
            f, _, t = line.split(' ')[0].partition('::')
            got.add(f[:-3].replace('/', '.') + '::' + t)
    return want <= got, str(sorted(want - got))

def main():
    sid, spec = sys.argv[1], runpy.run_path(sys.argv[2])
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        tree = os.path.join(tmp, 'repo')
        sh('git clone -q /repo %s' % tree)
        for f, old, new in spec['EDITS']:
            p = os.path.join(tree, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=tree).stdout
        ok, log = stable_ok(tree)
        if not ok:
            print('TESTS FAIL', log); return 1
        d = os.path.join(tmp, 'demo'); os.mkdir(d)
        open(os.path.join(d, 'demo.py'), 'w').write(spec['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run with cwd = the repository\n'
            'here="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:$PWD/scripts"\n'
            'py=/opt/venv/bin/python; [ -x "$py" ] || py=python3\n'
            'exec "$py" "$here/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        a = sh('bash %s/demo.sh' % d, cwd='/repo')
        b = sh('bash %s/demo.sh' % d, cwd=tree)
        print('unchanged rc', a.returncode, a.stdout[-300:], a.stderr[-300:])
        print('patched   rc', b.returncode, b.stdout[-300:], b.stderr[-300:])
        if a.returncode != 0 or b.returncode == 0:
            print('DEMO BAD'); return 1
        dst = '/verif/seeded/' + sid
        os.makedirs(dst, exist_ok=True)
        for n in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(d, n), os.path.join(dst, n))
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'],
                   'what_it_breaks': spec['BREAKS']},
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        print('KEPT', dst)
        return 0
    finally:
        shutil.rmtree(tmp)

sys.exit(main())

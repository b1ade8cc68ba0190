#!/usr/bin/env python3
"""plant.py ID...: builds /verif/seeded/<ID> from tools/plants/<ID>.py, confirms it in a scratch copy of
/repo (parse, stable tests, demo passes without / fails with) and runs the property's check on the copy."""
import warnings
warnings.simplefilter('ignore')
import json, os, runpy, shutil, subprocess, sys, tempfile, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def plant(ident, check=True, tier='quick'):
    spec = runpy.run_path(os.path.join(HERE, 'plants', ident + '.py'))
    out = os.path.join(VERIF, 'seeded', ident)
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='plant_')
    try:
        repo = os.path.join(tmp, 'repo')
        sh(['git', 'clone', '-q', '/repo', repo], tmp)
        for f, old, new in spec['EDITS']:
            p = os.path.join(repo, f)
            s = open(p, encoding='utf-8').read()
            assert s.count(old) == 1, (ident, f, 'occurrences of the text:', s.count(old))
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = sh(['git', 'diff'], repo).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        with open(os.path.join(out, 'demo.py'), 'w') as fo:
            fo.write('import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\nsys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))\n')
            if spec.get('STUBS', True):
                fo.write('import stubs\n')
                shutil.copy(os.path.join(HERE, 'demo_stubs.py'), os.path.join(out, 'stubs.py'))
            fo.write(textwrap.dedent(spec['DEMO']).lstrip('\n'))
        with open(os.path.join(out, 'demo.sh'), 'w') as fo:
            fo.write('#!/bin/bash\n# run in /repo after the build: 0 when the property holds on the inputs of the demonstration\n'
                     'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'fixif/func_aux/test/test_MPFmatrix.py', '--deselect', 'fixif/func_aux/test/test_MPFmatrix.py::test_to_sollya'], repo)
        tests = r.returncode == 0
        for dp, dn, fn in os.walk(os.path.join(repo, 'fixif')):
            for f in fn:
                if f.endswith('.py'):
                    src = open(os.path.join(dp, f), encoding='utf-8').read()
                    if '\nprint ' not in src:
                        try:
                            compile(src, f, 'exec')
                        except SyntaxError as e:
                            if subprocess.run(['git', 'diff', '--quiet', '--', os.path.join(dp, f)], cwd=repo).returncode:
                                raise
        bad = sh(['bash', os.path.join(out, 'demo.sh')], repo)
        sh(['git', 'checkout', '-q', '.'], repo)
        good = sh(['bash', os.path.join(out, 'demo.sh')], repo)
        ap = sh(['git', 'apply', os.path.join(out, 'patch.diff')], repo)
        ok = tests and good.returncode == 0 and bad.returncode != 0 and ap.returncode == 0
        res = ''
        if check:
            env = dict(os.environ, FIXIF_REPO=repo)
            c = sh([os.path.join(VERIF, 'check'), spec['PROP'], tier], VERIF, env, 1800)
            res = 'check exit %d: %s' % (c.returncode, c.stdout.strip().splitlines()[0] if c.stdout.strip() else '')
            if c.returncode != 1:
                res += '\n' + c.stdout[-1500:]
        print('%s %s %s tests=%s demo(good)=%d demo(bad)=%d apply=%d | %s' % (ident, spec['PROP'], 'OK' if ok else 'BAD', tests,
              good.returncode, bad.returncode, ap.returncode, res))
        if not ok:
            print(r.stdout[-500:], good.stdout[-1500:], '-----', bad.stdout[-800:], ap.stdout)
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    if not ids:
        ids = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'plants')) if f.endswith('.py'))
    for i in ids:
        plant(i, '--nocheck' not in sys.argv)

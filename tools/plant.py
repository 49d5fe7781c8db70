#!/usr/bin/env python3
"""Makes and confirms a planted bug.

usage: plant.py SPEC.py [--tests]

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (python source). The change is
made in a scratch copy of /repo, where the demo has to fail (it has to pass in /repo); with --tests the stable tests have
to pass too. The result goes to /verif/seeded/ID. Then the quick check of the property is run against the copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$scratch SCRATCH=$scratch timeout 280 %s -W ignore "$here/demo.py"
code=$?
/bin/rm -rf "$scratch"
exit $code
''' % PY


def sh(cmd, cwd, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    out = os.path.join(ROOT, 'seeded', spec['ID'])
    os.makedirs(out, exist_ok=True)
    work = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    shutil.rmtree(work)
    shutil.copytree('/repo', work, symlinks=True)
    try:
        changed_c = False
        for name, old, new in spec['EDITS']:
            p = os.path.join(work, name)
            s = open(p).read()
            assert s.count(old) == 1, '%s: %d times %r' % (name, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
            changed_c |= name.startswith('c/')
        code, diff = sh('git diff', work)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        # removed lines have to come from the original repository
        base = sh('git rev-list --max-parents=0 HEAD', '/repo')[1].strip()
        for name in {e[0] for e in spec['EDITS']}:
            original = set(sh('git show %s:%s' % (base, name), '/repo')[1].splitlines())
            for line in sh('git diff -U0 -- ' + name, work)[1].splitlines():
                if line.startswith('-') and not line.startswith('---') and line[1:] not in original:
                    print('  line not in the original repository:', line)
        open(os.path.join(out, 'demo.py'), 'w').write(spec['DEMO'])
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        if changed_c:
            code, text = sh('%s setup.py build_ext --inplace --force' % PY, work)
            assert code == 0, text[-2000:]
        demo = os.path.join(out, 'demo.sh')
        code, text = sh(demo, '/repo')
        print('%s: demo unchanged: exit %d%s' % (spec['ID'], code, '' if code == 0 else '  <-- WRONG\n' + text[-1500:]))
        code, text = sh(demo, work)
        print('%s: demo patched: exit %d %s%s' % (spec['ID'], code, text.strip().splitlines()[-1:],
                                                  '' if code else '  <-- WRONG\n' + text[-1500:]))
        if '--tests' in sys.argv:
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            bad = []
            procs = []
            for f in sorted({s.split('.')[1] for s in stable}):
                d = tempfile.mkdtemp(dir=work)
                shutil.rmtree(d)
                shutil.copytree('/repo/unittest', d)
                names = ' or '.join(s.split('::')[1] for s in stable if s.split('.')[1] == f)
                procs.append((f, subprocess.Popen(
                    [PY, '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', f + '.py', '-k', names], cwd=d,
                    env=dict(os.environ, PYTHONPATH=work, OMP_NUM_THREADS='1', MPLBACKEND='Agg'),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            for f, p in procs:
                text = p.communicate()[0]
                if p.returncode:
                    bad.append(f + '\n' + text[-600:])
            print('%s: stable tests %s' % (spec['ID'], 'pass' if not bad else 'FAIL <-- WRONG\n' + '\n'.join(bad)))
        code, text = sh('%s %s quick' % (os.path.join(ROOT, 'check.py'), spec['PROPERTY']), ROOT,
                        {'VERIF_REPO': work, 'VERIF_EVIDENCE': os.path.join('/tmp', 'plantev')})
        lines = [x for x in text.splitlines() if 'Violation' in x or 'seed=' in x]
        print('%s: %s %s' % (spec['ID'], 'CAUGHT' if code == 1 else 'MISSED (exit %d)' % code, [x[:250] for x in lines[:2]]))
    finally:
        shutil.rmtree(work)


main()

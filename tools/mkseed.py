"""Creates a planted change: python3 tools/mkseed.py spec.py (defines ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS).
Applies EDITS [(file, old, new)] to a scratch copy of /repo, writes seeded/<ID>/, and checks the demo both ways.
With --tests also runs the stable tests with the patch applied to /repo (undone afterwards)."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
export PROJECT_DIR_FRM="$PWD" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC PYTHONHASHSEED=0
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export NUMBA_CACHE_DIR="$T" MPLCONFIGDIR="$T" HOME="$T"
/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd='/repo', **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(V, 'seeded', ns['ID'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed.')
    try:
        sh(f'cp -a /repo {w}/repo')
        r = w + '/repo'
        for f, old, new in ns['EDITS']:
            s = open(f'{r}/{f}').read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(f'{r}/{f}', 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git diff', r).stdout)
        open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip())
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
        a = sh(f'bash {d}/demo.sh')
        b = sh(f'bash {d}/demo.sh', r)
        print(ns['ID'], 'clean', a.returncode, 'patched', b.returncode, '' if a.returncode == 0 and b.returncode else 'BAD')
        if a.returncode:
            print(a.stdout[-500:], a.stderr[-1500:])
        print('   ', (b.stdout + b.stderr).strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(w)


for s in sys.argv[1:]:
    main(s)

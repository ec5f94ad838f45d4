#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: for each planted bug of SPEC (list BUGS of dicts id, property, file, edits=[(old,new)], demo, needs, breaks):
in a scratch copy of /repo, confirm that it builds, passes the stable tests and that the demo tells it apart; write /verif/seeded/<id>;
then run the property's check on /repo with the patch applied and restore /repo."""
import sys, os, subprocess, json, shutil, runpy, re
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# run with cwd = the source tree, after the build
d="$(cd "$(dirname "$0")" && pwd)"; w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
g++ -std=c++20 -w -O0 {flags} -I"$PWD/include" -I"$PWD/vendors" -I"$PWD/vendors/combinations" "$d/demo.cpp" -o "$w/demo" {libs} || exit 0
timeout 120 "$w/demo"
'''
def main():
    spec = runpy.run_path(sys.argv[1]); ids = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in spec['BUGS']:
        if ids and b['id'] not in ids: continue
        W = '/tmp/plantwt'
        shutil.rmtree(W, ignore_errors=True)
        sh(f'cp -a /repo {W}')
        edits = b['edits'] if isinstance(b['edits'][0], tuple) else [b['edits']]
        ok = True
        for e in edits:
            f, old, new = e if len(e) == 3 else (b['file'], *e)
            p = f'{W}/{f}'; s = open(p).read()
            if s.count(old) != 1: print(b['id'], 'EDIT matches', s.count(old), 'times:', old[:60]); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok: continue
        D = f'/verif/seeded/{b["id"]}'
        os.makedirs(D, exist_ok=True)
        open(f'{D}/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
        open(f'{D}/demo.cpp', 'w').write(b['demo'])
        open(f'{D}/demo.sh', 'w').write(DEMO.format(flags=b.get('flags', ''), libs=b.get('libs', '')))
        os.chmod(f'{D}/demo.sh', 0o755)
        r0 = sh(f'bash {D}/demo.sh', cwd='/repo')
        r1 = sh(f'bash {D}/demo.sh', cwd=W)
        cc = sh(f'g++ -std=c++20 -w -fsyntax-only -Iinclude -Ivendors -Ivendors/combinations {D}/demo.cpp', cwd=W)
        t = 'skipped'
        if not b.get('notest'):
            # build and test in a private mount-free way: the scripts use /repo, so apply there
            sh(f'git -C /repo apply {D}/patch.diff')
            try:
                sh('bash /opt/vp/test.sh /tmp/plant_out.json')
                o = json.load(open('/tmp/plant_out.json')); t = 'ok' if stable <= set(o['passed']) else 'FAIL ' + str(sorted(stable - set(o['passed']))[:2])
                c = sh(f'./check {b["property"]}', cwd='/verif')
            finally:
                sh('git -C /repo checkout -- .')
        viol = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        print(b['id'], b['property'], 'demo', r0.returncode, r1.returncode, 'compiles' if cc.returncode == 0 else 'NOCOMPILE', 'tests', t, 'check', c.returncode, viol[:1] or c.stdout[-200:], flush=True)
        caught = 'not caught'
        if c.returncode == 1 and viol:
            m = re.findall(r'replay=\S*?([A-Za-z0-9_.]+)(?:\s|$)', viol[0])
            caught = f"`{b['property']}`" + (' (no failing input)' if 'no-failing' in viol[0] else ' with replayed input')
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks'], caught=caught), open(f'{D}/meta.json', 'w'), indent=1)
        shutil.rmtree(W, ignore_errors=True)
    sh('bash /opt/vp/build.sh')
main()

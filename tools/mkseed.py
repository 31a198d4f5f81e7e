"""python3 tools/mkseed.py SPEC.py - SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO
(text of demo.py), optionally ZKP=True.  Verifies in a scratch copy and writes seeded/<ID>."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = '13ddb0c'

ZKPY = '''import ctypes, os, shutil, subprocess, tempfile, atexit
import elementstx
_d = tempfile.mkdtemp(prefix='demo-zkp-')
atexit.register(shutil.rmtree, _d, True)
subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-fvisibility=hidden', '-o', _d + '/libzkp.so',
                os.path.join(os.path.dirname(os.path.abspath(__file__)), 'zkpshim.c'),
                '-lsecp256k1'], check=True)
elementstx.set_custom_secp256k1_path(_d + '/libzkp.so')
'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    out = os.path.join(here, 'seeded', ns['ID'])
    work = tempfile.mkdtemp(prefix='seed-')
    tree = work + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', tree], check=True)
        d = work + '/demo'
        os.mkdir(d)
        open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
        if ns.get('ZKP'):
            open(d + '/zkp.py', 'w').write(ZKPY)
            shutil.copy(here + '/shim/zkpshim.c', d)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        r = sh([d + '/demo.sh'], cwd=tree)
        if r.returncode != 0:
            sys.exit('%s: demo fails on the unchanged tree\n%s' % (ns['ID'], (r.stdout + r.stderr)[-1500:]))
        for f, old, new in ns['EDITS']:
            p = tree + '/elementstx/' + f
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit('%s: %d matches of %r' % (ns['ID'], t.count(old), old))
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff', '--no-color'], cwd=tree).stdout
        # removed lines must be lines of the original repository
        cur = None
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = sh(['git', 'show', base + ':' + l[6:]], cwd='/repo').stdout.splitlines()
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in cur:
                print('%s: WARNING not an original line: %s' % (ns['ID'], l))
        r = sh([d + '/demo.sh'], cwd=tree)
        if r.returncode == 0:
            sys.exit('%s: demo passes with the change' % ns['ID'])
        print(ns['ID'], 'demo:', r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:])
        env = dict(os.environ, PYTHONPATH=tree)
        # the test script runs on /repo: run the suite the same way in the copy
        js = work + '/o.json'
        t = open('/opt/vp/test.sh').read().replace('/repo', tree)
        open(work + '/test.sh', 'w').write(t)
        r = sh(['bash', work + '/test.sh', js], cwd=tree)
        res = json.load(open(js))
        print('   tests:', str({k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in res.items()})[:200])
        fails = res.get('failed') or res.get('failing') or []
        if isinstance(fails, (list, dict)) and len(fails):
            sys.exit('%s: existing tests fail: %s' % (ns['ID'], str(fails)[:300]))
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for f in os.listdir(d):
            if f != '__pycache__':
                shutil.copy(d + '/' + f, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(out + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(work, ignore_errors=True)


for s in sys.argv[1:]:
    main(s)

"""python3 tools/catch.py [ID|PROPERTY]... [--all]: run the check of each seeded bug's property (--all: every check) on a patched copy"""
import json, os, re, shutil, subprocess, sys, tempfile, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != '--all']
checks = [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open(here + '/MANIFEST.json'))['checks']] if '--all' in sys.argv else None
for b in sorted(os.listdir(here + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (here, b)))
    if args and not any(b.startswith(a) or meta['property'] == a for a in args):
        continue
    work = tempfile.mkdtemp(prefix='catch-')
    try:
        subprocess.run(['cp', '-a', '/repo', work + '/repo'], check=True)
        subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (here, b)], cwd=work + '/repo', check=True)
        for p in checks or [meta['property']]:
            t = time.time()
            r = subprocess.run([here + '/run.sh', p, 'quick'], env=dict(os.environ, VERIF_REPO=work + '/repo', VERIF_SEED='1'),
                               capture_output=True, text=True)
            out = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print('%-26s %s rc=%d %-6s %.0fs %s' % (b, p, r.returncode, 'CAUGHT' if r.returncode == 1 and out else 'missed',
                  time.time() - t, '' if r.returncode in (0, 1) else r.stderr[-300:]), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)

"""natq.py ID: only the native half of a check; exit 1 when it finds a violation"""
import sys, os, glob, json, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, H)
import check
pid = sys.argv[1]
mods = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(H, 'contracts', pid.lower() + '*.py')))
tmp = tempfile.mkdtemp()
res, err = check.natives(dict(seed=1, modules=mods, prop=pid, seconds=3, cases=3000), tmp, 'n', 100)
shutil.rmtree(tmp)
known = [(k['harness'], k['label']) for k in json.load(open(os.path.join(H, 'known_findings.json')))['findings'] if k['property'] == pid]
bad = [(r['id'], v['label']) for r in res if 'error' not in r for v in r['violations'] if not check.stale(v) and (r['id'], v['label']) not in known]
print(bad[:3], err[-300:])
sys.exit(1 if bad else 0)

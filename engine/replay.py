import sys, json, tempfile, shutil
import run
r = json.load(open(sys.argv[1])); h = run.load()[r['harness']]; h['dn'] = h['defs'] if not r.get('defs') else r['defs']
wd = tempfile.mkdtemp(prefix='vh_replay_')
try:
    v = run.replay(run.Build(wd), h, r['inputs'])
    print(v[3]); print('RESULT %s [%s] %s' % (v[0], v[1], v[2])); sys.exit(1 if v[0] == 'fail' else 0)
finally: shutil.rmtree(wd, ignore_errors=True)

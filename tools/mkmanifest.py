"""writes MANIFEST.json from the modules in props/"""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
NA = {}
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(os.path.join(ROOT, 'props', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    m = importlib.import_module('props.' + i.lower())
    checks.append({
        'property': i,
        'quick_cmd': './run_check.py %s quick' % i,
        'thorough_cmd': './run_check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection: ' + m.TECHNIQUE,
        'level': 'exploration',
        'level_note': 'Seeded search over simulated executions (quick %d, thorough %d); no exhaustiveness. Trusts: %s.' % (
            m.RUNS['quick'], m.RUNS['thorough'], '; '.join(m.ASSUMPTIONS))})
json.dump({'version': 1, 'setup_cmd': './run_check.py setup', 'checks': checks,
           'hooks': {'guard': 'none', 'enable': 'no hooks were added to /repo: the seams are the custom library path, the _rand_func argument, '
                     'os.urandom, stream arguments, sys.settrace and threading locks', 'source_commits': []},
           'not_applicable': na,
           'notes': 'run_check.py <id> quick|thorough; run_check.py replay <file>; run_check.py determinism <id> [n]. '
                    'known_findings.txt lists repaired defects.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')

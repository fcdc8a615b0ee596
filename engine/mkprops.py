"""writes properties.jsonl and MANIFEST.json from props.py"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for k in sorted(props.PROPS):
        f.write(json.dumps(props.PROPS[k]['text']) + '\n')
    for d in props.NOT_APPLICABLE:
        f.write(json.dumps(d['text']) + '\n')
T = 'contract-based deductive verification of the real code (weakest-precondition style VCs from the LLVM IR of /repo, loop invariants, z3/cvc5)'
m = {'version': 1, 'setup_cmd': 'python3-vt engine/run.py --setup',
     'hooks': {'guard': 'PLY_VF_HOOKS', 'enable': 'no hooks are needed: harnesses in /verif/units are compiled together with the unmodified sources of /repo', 'source_commits': []},
     'checks': [{'property': k, 'quick_cmd': 'python3-vt engine/run.py %s --tier quick' % k, 'thorough_cmd': 'python3-vt engine/run.py %s --tier thorough' % k,
                 'technique': T, 'level': 'proof', 'level_note': props.PROPS[k]['note'] + ' Assumes: ' + '; '.join(props.ASSUMPTIONS + props.PROPS[k]['assumptions']) + '. Trusts: ' + '; '.join(props.TRUSTED) + '.'}
                for k in sorted(props.PROPS)],
     'not_applicable': [{'property': d['text']['id'], 'reason': d['reason']} for d in props.NOT_APPLICABLE],
     'notes': 'All properties are decided by engine/run.py; see DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
for ln in open(V + '/properties.jsonl'):
    jsonschema.validate(json.loads(ln), json.load(open('/root/.vp/PROPERTIES.schema.json')))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(props.PROPS), 'properties')

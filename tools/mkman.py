import json,sys
sys.path.insert(0,'/verif/tools')
import props
titles={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d
checks=[]; na=[]
for p in sorted(titles):
    c=props.PROPS.get(p)
    if not c: continue
    checks.append(dict(property=p,quick_cmd=f'./check.py {p} --tier quick',thorough_cmd=f'./check.py {p} --tier thorough',
      technique=c.get('technique','contract-based deductive verification of the woven source (Verus, Z3); failed obligations replayed by a search on the real code'),
      level=c.get('level','proof'),level_note=c['note']))
    if c.get('theorems'): checks[-1]['theorems']=c['theorems']
m=dict(version=1,setup_cmd='cd harness && cargo build --release --offline --quiet',hooks=dict(guard='none: the contracts live in /verif/overlay and are woven into a copy of the source',enable='nothing to enable',source_commits=[]),
  checks=checks,not_applicable=[dict(property=p,reason=props.NA[p]) for p in sorted(getattr(props,'NA',{}))],
  notes='One Verus run per check on the current source of /repo with the contracts of /verif/overlay woven in; see DESIGN.md.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),'checks')

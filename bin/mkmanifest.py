import json,os
os.chdir(os.path.join(os.path.dirname(__file__),'..'))
claimed={
}
exec(open('bin/claims.py').read())
m={"version":1,"setup_cmd":"bash bin/setup.sh","checks":[],"not_applicable":[]}
for l in open('properties.jsonl'):
    p=json.loads(l)['id']
    if p in claimed:
        t,n=claimed[p]
        m['checks'].append({"property":p,"quick_cmd":f"VERIF_TIER=quick bash bin/check.sh {p}","thorough_cmd":f"VERIF_TIER=thorough bash bin/check.sh {p}",
          "evidence_file":f"evidence/{p}.json","technique":t,"level":"exploration","level_note":n})
    else:
        m['not_applicable'].append({"property":p,"reason":"monitor under construction"})
if not m['not_applicable']: pass
json.dump(m,open('MANIFEST.json','w'),indent=1); print(len(m['checks']),'claimed')

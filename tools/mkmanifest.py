import json,subprocess,sys
sys.path.insert(0,'/verif/tools')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import props as P
man={'version':1,'setup_cmd':'python3 tools/check.py --setup','checks':[],'not_applicable':[]}
tech=json.load(open('/verif/tools/manifest_notes.json'))
for p in props:
    i=p['id']
    if i in P.CHECKS:
        t=tech[i]
        man['checks'].append({'property':i,'quick_cmd':'python3 tools/check.py %s'%i,'thorough_cmd':'VERIF_TIER=thorough python3 tools/check.py %s'%i,
          'technique':t['technique'],'level':'model_checking','level_note':t['note'],'evidence_file':'evidence/%s.json'%i})
    else:
        man['not_applicable'].append({'property':i,'reason':tech.get(i,{}).get('na','Not claimed yet: the specification modules for this property are still being written.')})
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1); print(len(man['checks']),'checks')

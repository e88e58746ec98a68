import json, os, sys
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
LEVEL_NOTE=json.load(open(V+'/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(f"{V}/checks/{i.lower()}.py"):
        n=LEVEL_NOTE.get(i,{})
        checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough",
          "technique":n.get("technique","TLA+ specification model-checked with TLC; vectors it emits are replayed in the real program and recorded runs of the real program are judged by a TLC trace module"),
          "level":"model_checking","level_note":n.get("note","bounded exhaustive exploration of the specification, sampled conformance of the implementation"),
          "evidence_file":f"evidence/{i}.json"})
    else:
        na.append({"property":i,"reason":LEVEL_NOTE.get(i,{}).get("na","check not built yet")})
m={"version":1,"setup_cmd":"python3-vt -c \"import sys; sys.path.insert(0,'lib'); import vp; vp.build()\"",
   "hooks":{"guard":"GRT_VERIF","enable":"none needed: every observable is a file, exit status or text the program already produces","source_commits":[]},
   "checks":checks,"not_applicable":na,"notes":"language: TLA+ checked with TLC; see DESIGN.md. known-findings.jsonl lists genuine defects left in place and those fixed."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
try:
    import jsonschema
    jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in props: jsonschema.validate(p,json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print("valid",len(checks),len(na))
except ImportError: pass

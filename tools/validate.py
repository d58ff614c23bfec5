import json,glob,os,sys
sys.path.insert(0,"")
import jsonschema
V='/verif/'
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V+'properties.jsonl'): jsonschema.validate(json.loads(l),s)
if os.path.exists(V+'MANIFEST.json'): jsonschema.validate(json.load(open(V+'MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(V+'evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print("schemas ok")

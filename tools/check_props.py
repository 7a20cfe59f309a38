import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
n=0
for l in open('/verif/properties.jsonl'):
    o=json.loads(l); n+=1
    try: jsonschema.validate(o,s)
    except Exception as e: print(o['id'],e.message)
    c=o['statement'].count('. ')+1
    if c>3: print(o['id'],c)
print(n)

import json,sys
sys.path.insert(0,'/verif/lib')
import props
LEVEL={}
checks=[]; na=[]
NA=json.load(open('/verif/tools/dev/na.json'))
allp=[json.loads(l) for l in open('/verif/properties.jsonl')]
for p in allp:
    i=p['id']
    if i in props.PROPS:
        P=props.PROPS[i]
        checks.append({"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"./check {i} --tier thorough",
          "technique":P.get("technique","contract-based deductive verification (Verus) of functions extracted from the macro-expanded source on every run; bounded replay search as labelled stand-in"),
          "level":P.get("level","proof"),"level_note":P["note"],**({"theorems":P["theorems"]} if "theorems" in P else {})})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check yet")})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)

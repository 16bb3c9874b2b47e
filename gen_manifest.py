"""Writes MANIFEST.json from properties.jsonl and the table of built checks in mc/src/checks/mod.rs."""
import json,re
props=[json.loads(l) for l in open('properties.jsonl')]
src=open('mc/src/checks/mod.rs').read()
tech=dict(re.findall(r'"(C\d\d)" => \("([^"]*)"',src))
tech['C19']='stateless exploration of all thread interleavings up to a preemption bound of the real code under a controlled scheduler (fresh process per schedule)'
tech['C23']='exhaustive enumeration of all feature configurations x bounded documents x queries and edit sequences on the real code, differential against the full configuration'
NOTES=json.load(open('level_notes.json'))
common="Complete within the bounds printed in the evidence file (every case enumerated, none sampled); says nothing about larger documents or alphabets. Trusts the harness's reference model, the rphtml parser for the starting documents (each is compared with the model before use) and the Rust toolchain."
checks=[];na=[]
for p in props:
    i=p['id']
    if i in tech:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":"model checking: "+tech[i],"level":"model_checking","level_note":(NOTES.get(i,"")+" "+common).strip()})
    else:
        na.append({"property":i,"reason":"the check for this property is not built yet"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na}
h=NOTES.get("hooks")
if h: m["hooks"]=h
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False); open('MANIFEST.json','a').write("\n")
print(len(checks),len(na))

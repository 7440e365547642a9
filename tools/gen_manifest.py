import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+"/lib")
import checks
props=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
NA=checks.NOT_APPLICABLE if hasattr(checks,"NOT_APPLICABLE") else {}
m={"version":1,"setup_cmd":"python3 run.py build","checks":[],"not_applicable":[],
 "notes":"Level model_checking everywhere: the deciding step enumerates executions of the real code (or generated code) exhaustively within the bounds recorded in evidence."}
for p in props:
    if p in checks.META and p not in NA:
        c=checks.META[p]
        m["checks"].append({"property":p,"quick_cmd":"python3 run.py %s quick"%p,"thorough_cmd":"python3 run.py %s thorough"%p,"technique":c["technique"],"level":c["level"],"level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":p,"reason":NA.get(p,"check not built yet")})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(m["checks"]),"checks",len(m["not_applicable"]),"not applicable")

import json,sys
d=json.load(open("/verif/evidence/%s.json"%sys.argv[1]))
for f in sorted(d["coverage"]["per_function"],key=lambda f:-f["seconds"])[:8]: print(f["seconds"],f["obligations"],f["paths"],f["function"][:110])

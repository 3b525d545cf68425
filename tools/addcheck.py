import json,sys
p='/verif/tools/checks.json'
d=json.load(open(p))
d[sys.argv[1]]=[sys.argv[2],sys.argv[3]]
json.dump(d,open(p,'w'),indent=1,ensure_ascii=False)

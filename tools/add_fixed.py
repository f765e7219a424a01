import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
for l in sys.argv[1:]:
    if l not in d['fixed']: d['fixed'].append(l)
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')

import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
p=set(r['passed']); print('passed',len(p),'missing stable:',[x for x in b['stable'] if x not in p][:20])

import json,collections,sys
r=[json.loads(l) for l in open(sys.argv[1])]
print(len(r),collections.Counter(x['killed'] for x in r))
for x in r:
    if x['killed'] is None or any(o[1]!=-9 for o in x['odd']): print(x['i'],x['killed'],x['desc'].replace("\n"," "),[ (o[0],o[1]) for o in x['odd']])

import json,sys
d=json.load(sys.stdin)
r=d.pop('records'); print(d)
v=[x for x in r if 'key' in x]
print(len(v),'violations')
for x in v: print(x['key'],'|',x['case'],'|',x['detail'][:int(sys.argv[1]) if len(sys.argv)>1 else 300].replace('\n',' '))

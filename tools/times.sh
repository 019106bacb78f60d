python3 -c "
import json,sys;d=json.load(open('evidence/$1.json'))
for n,e in d['coverage']['entries'].items(): print(n,{k:v for k,v in e.items() if k!='checks'})"

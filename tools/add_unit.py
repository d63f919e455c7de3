# usage: add.py ID rule unit... ; unit = src:mode[:PART=n][:k=v]
import json,sys
p='/verif/checks/checks.json'; d=json.load(open(p))
pid,rule,*us=sys.argv[1:]
units=[]
for u in us:
    f=u.split(':'); x={"src":f[0],"mode":f[1]}
    for k in f[2:]:
        if k.startswith('PART='): x["flags"]=["-D"+k]; x["tag"]=k[5:]
        else:
            a,b=k.split('=',1); x[a]=int(b) if b.isdigit() else b
    units.append(x)
o=d.get(pid,{})
o["units"]=units
if rule!='-': o["rule"]=rule
o.setdefault("assumptions",["expected answers come from an independent reference written in include/nwv, not from the library"])
d[pid]=o
json.dump(d,open(p,'w'),indent=1)

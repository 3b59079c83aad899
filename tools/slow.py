import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
def find(d):
    if isinstance(d,dict):
        for k,v in d.items():
            if k=='proofs' and isinstance(v,list): return v
            r=find(v)
            if r: return r
for p in sorted(find(d),key=lambda p:-(p['wall_s'] or 0))[:int(sys.argv[2]) if len(sys.argv)>2 else 12]: print(p['name'],p['status'],p['wall_s'],p['obligations'])

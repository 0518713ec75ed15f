import json,sys,glob
for p in sorted(glob.glob('/verif/evidence/replay/%s-*.json'%sys.argv[1])):
    d=json.load(open(p)); print('==',p,d['key'],d['what'][:300])
    pl=d['payload']
    if 'event' in pl:
        e=json.dumps(pl['event']); print(e[:1500])
        print(json.dumps(pl['trace']['cfg'])[:400])

import json,sys
for p in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%p))
    l=sorted(d['coverage']['job_list'],key=lambda j:-(j['seconds'] or 0))
    print(p,'wall',d['wall_s'],'core-s',round(sum(j['seconds'] or 0 for j in l)))
    for j in l[:12]: print('  ',j['seconds'],j['paths'],j['variant'],j['job'])

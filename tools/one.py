"""python3 tools/one.py [variant] 'job' ...: runs single jobs, for development"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check as C
a = sys.argv[1:]
v = a.pop(0) if a[0] in C.FEATURES else 'simd'
C.build_engine()
files, hooks = C.build_ir(v)
for j in a:
    e = C.Engine(files, [])
    t = time.time()
    r = e.run(j + ' seconds:%s' % os.environ.get('SEC', '900'))
    e.stop()
    r = dict(r) if r else r
    for k in ('functions', 'traces'):
        if r: r.pop(k, None)
    print(j, '%.1f s' % (time.time() - t), str(r)[:600])

"""debug: run single groups  grp.py P03 'substring' """
import sys; sys.path.insert(0, __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..'))
sys.setrecursionlimit(20000)
import importlib, time, traceback, os
from cver import runner, frontend as F
from cver.execu import Ex
m = importlib.import_module('props.' + sys.argv[1].lower())
progs = {}
for g in m.groups(os.environ.get('TIER', 'quick')):
    if sys.argv[2] not in g.name: continue
    if g.driver not in progs: progs[g.driver] = F.Program(os.path.join(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'drivers'), g.driver), g.filt)
    P = progs[g.driver]
    ex = Ex(P, name=g.name, unroll=g.unroll, tmo=g.tmo, safety=g.safety); ex.loopdebug = True
    ex.deadline = time.time() + g.budget
    t = time.time()
    outs = []
    try:
        outs = ex.explore(lambda: g.fn(ex, P, **g.params))
    except Exception as e:
        if os.environ.get('TB'): traceback.print_exc()
        print('ERROR', type(e).__name__, e, ex.where)
    bad = [o for o in ex.obs if o.status != 'discharged']
    print(g.name, len(ex.obs), 'obligations', 'paths', [(k, str(v)[:80]) for s, k, v in outs], '%.1fs' % (time.time() - t))
    for o in bad[:8]: print('   ', o.name, o.status, o.detail[:300], o.where, str(o.model)[:300] if o.model is not None else '')
    if os.environ.get('NAMES'):
        import collections
        print(collections.Counter((o.name, str(o.where)) for o in ex.obs).most_common(6))

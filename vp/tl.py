import sys,time,traceback
import irgen, world, low, engine, fun
from ll import Unsupported
prog=irgen.load(); w=world.build()
import fnmatch
for n in low.NAMES + fun.NAMES:
    if len(sys.argv)>1 and not any(fnmatch.fnmatch(n,x) for x in sys.argv[1:]): continue
    a=low.Acc(prog,w); t0=time.time()
    try:
        a.run(n); print('OK',n,len(a.obl),'%.1f'%(time.time()-t0))
    except engine.Violation as e: print('VIOL',n,e.kind,e.msg,'%.1f'%(time.time()-t0))
    except (Unsupported,engine.Budget) as e: print('UNSUP',n,repr(e)[:200]); traceback.print_exc(limit=-3)

import sys,time,traceback
import irgen, spec, verify, engine, terms
from ll import Unsupported
def main(f, names):
    prog=irgen.load()
    import world; w=world.build()
    con=dict(verify.BB)
    for p in w.procs.values():
        if p.fn: con[p.fn]=verify.proc_contract(p)
    for p in w.procs.values():
        if names and not any(__import__('fnmatch').fnmatch(p.name,x) for x in names): continue
        c2=dict(con); c2.pop(p.fn)
        t0=time.time()
        T=None
        try:
            T=verify.Task(prog,w,p,c2,w.invs)
            r=T.run()
            print('OK ',p.name,r,'succ',T.success_returns,'fail',T.fail_returns,'steps',T.steps)
        except engine.Violation as e:
            print('VIOL',p.name,e.kind,e.msg,'%.1fs'%(time.time()-t0))
        except (Unsupported,engine.Budget) as e:
            print('UNSUP',p.name,repr(e),'%.1fs'%(time.time()-t0))
            if '-v' in sys.argv: traceback.print_exc()
main(None,[a for a in sys.argv[1:] if a!='-v'])

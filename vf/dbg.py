import sys,time,os,cProfile
from vf import engine,models,config,build
prop=sys.argv[1]
cfg=config.CHECKS[prop]
w='/tmp/w/'+prop
if '-n' not in sys.argv:
    t=time.time(); build.build(prop,cfg,w); print('build %.1fs'%(time.time()-t))
pat=[a for a in sys.argv[2:] if a[0]!='-']
prog=engine.Program('%s/%s.bc'%(w,prop))
tot=0
for n in sorted(prog.mod.functions):
    if not n.startswith('vf_check__') or (pat and not any(p in n for p in pat)): continue
    if prog.mod.functions[n].decl: continue
    t=time.time()
    from vf import check
    r=check.make_run(prog,n,cfg)
    if '-p' in sys.argv:
        cProfile.run('r.verify()',sort='cumtime')
    else:
        try: r.verify()
        except Exception as ex:
            import traceback; print(n); traceback.print_exc(limit=-3); continue
    print('%-60s paths %d  %.2fs'%(n,r.npaths,time.time()-t), sorted('%s x%d'%(u,r.undecided.count(u)) for u in set(r.undecided))[:6], dict(r.assumptions), {k:round(v,1) for k,v in r.prover.time.items()},'nz3',r.nz3)
    for o in r.obl.values():
        if o.status!='discharged' or '-v' in sys.argv:
            print('    %-10s %-60s x%d %s %.2fs %s %s'%(o.status,o.name,o.n,o.backend,o.time,o.detail or '', o.cex or ''))
    tot+=len(r.obl)
print(tot,'obligations')

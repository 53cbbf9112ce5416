"""Development aid: run a campaign and list every class of violation with one example each."""
import sys, os, collections, json
sys.path.insert(0, os.path.dirname(__file__))
import core, simlib, props
def task(a):
    prop,seed,idx=a; t0=__import__("time").time()
    ctx=core._G["ctx"]; ctx.reset(); P=props.PROPS[prop]; res=[]; n=0
    try:
        for case in P.cases(ctx,seed,idx,"quick"):
            n+=1
            r=P.oracle(ctx,case)
            if r: res.append((r,case))
    except Exception as e:
        import traceback; return n,ctx.runs,[("EXC "+traceback.format_exc(),{})],dict(ctx.fired),dict(ctx.probes)
    t0=__import__("time").time()-t0
    if t0>10: print("slow task",prop,seed,idx,n,"%.1fs"%t0,case.get("name"))
    return n,ctx.runs,res,dict(ctx.fired),dict(ctx.probes)
if __name__=="__main__":
    prop=sys.argv[1]; N=int(sys.argv[2]); seed=int(sys.argv[3]) if len(sys.argv)>3 else 1
    import multiprocessing as mp, time
    sim,exe=simlib.build_sim(),simlib.build_uasm(); hexe=simlib.build_uasm(True) if props.PROPS[prop].hooks else None
    cnt=collections.Counter(); ex={}; t=time.time(); runs=cases=0; fired=collections.Counter(); probes=collections.Counter()
    with mp.Pool(8,core._winit,(sim,exe,hexe)) as pool:
        for n,rn,res,f,pr in pool.imap_unordered(task,((prop,seed,i) for i in range(N))):
            cases+=n; runs+=rn; fired.update(f); probes.update(pr)
            for m,c in res:
                k=core.vclass(m) if not m.startswith("bad end") else m
                cnt[k]+=1
                if k not in ex or len(json.dumps(c))<len(json.dumps(ex[k][1])): ex[k]=(m,c)
    print("cases",cases,"runs",runs,"%.1fs"%(time.time()-t)); print("fired",dict(fired)); print("probes",dict(probes))
    for k,n in cnt.most_common(40):
        m,c=ex[k]; print("%5d  %s\n       e.g. %s %s"%(n,k,m[:300],json.dumps({a:b for a,b in c.items() if a not in("files","mods")})[:500]))
    json.dump({k:v[1] for k,v in ex.items()},open("/tmp/survey_%s.json"%prop,"w"))

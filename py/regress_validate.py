"""Validates the simulated runtime: the project's own regression set, run in the simulator."""
import os, sys, importlib.util, re
sys.path.insert(0, os.path.dirname(__file__))
from simlib import *
src=open("/opt/vp/runtests.py").read()
m=re.search(r"GROUPS = \[.*?\n\]", src, re.S); ns={}; exec(m.group(0), ns); GROUPS=ns["GROUPS"]
REG="/repo/regress"
def find(d,n):
    if not os.path.isdir(d): return None
    for f in sorted(os.listdir(d)):
        if f.lower()==n.lower(): return os.path.join(d,f)
def main():
    sim=build_sim(); exe=build_uasm(); s=Server(sim)
    ok=bad=0; passed=set(); t=time.time(); per=[]
    for g in GROUPS:
        d,opts,ext,expext,skip,err=g
        dd=REG+"/src/"+d
        if not os.path.isdir(dd): continue
        files=[{"p":"C:\\src\\%s\\%s"%(d,f),"h":dd+"/"+f} for f in sorted(os.listdir(dd)) if os.path.isfile(dd+"/"+f)]
        for f in sorted(os.listdir(dd)):
            if not f.lower().endswith(".asm"): continue
            name=os.path.splitext(f)[0]; expdir=find(REG+"/exp",d) or ""
            expected=find(expdir,name+"."+expext) if ext else None; experr=find(expdir,name+".err") if err else None
            if not expected and not experr: continue
            # other directories may be included by ..\other
            plan={"img":exe,"files":files,"steps":[{"procs":[{"argv":opts.format(n=name).split()+["..\\src\\"+d+"\\"+f]}]}],"want":{"data":1}}
            t0=time.time(); r=s.run(plan); per.append(time.time()-t0)
            p=r["steps"][0]["procs"][0]; out={x[0].lower():x for x in r["files"]}
            def get(e):
                x=out.get("c:\\work\\"+name.lower()+"."+e); return x[4].encode("latin1") if x else None
            why=[]; idn=d+'/'+name
            if expected:
                got=get(ext)
                if got is None: why.append("no ."+ext)
                elif got[skip:]!=open(expected,"rb").read()[skip:]: why.append("differs")
                elif err and get("err") is not None and not experr: why.append("unexpected err")
            if experr:
                ge=get("err")
                if ge is None: why.append("no err")
                elif ge.replace(b"\r\n",b"\n")!=open(experr,"rb").read().replace(b"\r\n",b"\n"): why.append("err differs")
            w0=list(why)
            if expected and not any(w in ("no ."+ext,"differs","unexpected err") for w in w0): passed.add(idn+"."+expext)
            if experr and not any(w in ("no err","err differs") for w in w0): passed.add(idn+".err")
            if p["end"]!="exit" or p["av"] or p["diag"]: why.append("%s %s %s"%(p["end"],p["av"],p["diag"]))
            if p['end']!='exit' or p['av'] or p['diag']: print(d,name,why, p["code"], p["out"][-200:] if 'no' in why[0] else '')
    b=json.load(open("/opt/vp/BASELINE.json")); base=set(b["stable"])
    print("baseline", len(base), "sim", len(passed), "missing", sorted(base-passed), "extra", sorted(passed-base))
    print("ok",ok,"bad",bad,"time",time.time()-t, "max",max(per))
main()

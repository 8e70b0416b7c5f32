"""Driver: builds bitcode from /repo's working tree, runs the symbolic executor on harnesses,
replays every counterexample natively and writes evidence."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
VERIF=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get("VP_REPO","/repo"); BUILD=os.path.join(VERIF,"build")
CLANG="clang++"; GXX="g++"; EIGEN="/usr/include/eigen3"
TIER=os.environ.get("VERIF_TIER","quick")
JOBS=int(os.environ.get("VP_JOBS","8"))
VARIANTS={"2q":["-DMATTER_VERIF_SPLINEDEG=2"],"2c":["-DMATTER_VERIF_SPLINEDEG=3"],"3q":["-DTHREEDIM","-DMATTER_VERIF_SPLINEDEG=2"],"3c":["-DTHREEDIM","-DMATTER_VERIF_SPLINEDEG=3"]}
COMMON=["-std=c++17","-w","-I",EIGEN,"-I",VERIF+"/harness","-I",VERIF+"/stubs/a/b","-I",REPO+"/src","-DVP_HARNESS","-include","stdlib.h","-DEIGEN_DONT_VECTORIZE","-DEIGEN_MAX_ALIGN_BYTES=0","-DNDEBUG","-D_GLIBCXX_ASSERTIONS","-fno-access-control",'-DSRC_DIR="/nonexistent"','-DINCLUDE_DIR="/nonexistent"']
BC=["-O1","-Xclang","-disable-llvm-passes","-fopenmp","-ffp-contract=off","-fno-math-errno","-gline-tables-only","-fno-inline-functions","-emit-llvm","-c","-isystem",VERIF+"/stubs/omp","-include",VERIF+"/stubs/vp_force.h"]
class BuildError(Exception): pass
def sh(cmd,timeout=600,env=None,cwd=None):
    try: p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,env=env,cwd=cwd); return p.returncode,p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e: return -9,(e.stdout or b"").decode(errors="replace")+"\nTIMEOUT"
def tree_hash():
    h=hashlib.sha256()
    for root in (REPO+"/src",VERIF+"/harness",VERIF+"/stubs"):
        for d,_,fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p=os.path.join(d,f); h.update(p.encode()); h.update(open(p,"rb").read())
    h.update(repr((COMMON,BC)).encode()); return h.hexdigest()[:16]
_locks={}; _lg=threading.Lock()
def once(path):
    with _lg: return _locks.setdefault(path,threading.Lock())
def sim_sources():
    return sorted(glob.glob(REPO+"/src/simulation/*.cpp"))
class Builder:
    def __init__(self):
        self.dir=os.path.join(BUILD,"t-"+tree_hash()); os.makedirs(self.dir,exist_ok=True)
        # keep the build area small: drop trees of other sources
        for d in glob.glob(BUILD+"/t-*"):
            if d!=self.dir and time.time()-os.path.getmtime(d)>3600: shutil.rmtree(d,ignore_errors=True)
    def _cc(self,cmd,out,what):
        if os.path.exists(out): return
        tmp=out+".tmp%d_%d"%(os.getpid(),threading.get_ident()); rc,o=sh(cmd+["-o",tmp])
        if rc: raise BuildError(what+": "+o[-3000:])
        os.rename(tmp,out)
    def unity(self,tag,srcs):
        p=os.path.join(self.dir,tag+".cpp"); t="".join('#include "%s"\n'%s for s in srcs)
        with once(p):
            if not os.path.exists(p): open(p,"w").write(t)
        return p
    def bc_sim(self,var,defs=()):
        key="sim-"+var+("-"+hashlib.md5(repr(defs).encode()).hexdigest()[:6] if defs else ""); out=os.path.join(self.dir,key+".bc")
        with once(out):
            if os.path.exists(out): return out
            fl=[CLANG]+COMMON+list(defs)+VARIANTS[var]+BC
            try: self._cc(fl+[self.unity("unity",sim_sources())],out,"bitcode "+var)
            except BuildError:
                parts=[]
                for s in sim_sources():
                    o=os.path.join(self.dir,key+"-"+os.path.basename(s)+".bc"); self._cc(fl+[s],o,"bitcode "+s); parts.append(o)
                rc,o=sh(["llvm-link-18" if shutil.which("llvm-link-18") else "/usr/lib/llvm-18/bin/llvm-link"]+parts+["-o",out]);
                if rc: raise BuildError(o)
        return out
    def bc_str(self):
        out=os.path.join(self.dir,"str.bc")
        with once(out): self._cc([CLANG,"-std=c++17","-w","-D_GLIBCXX_ASSERTIONS","-O1","-Xclang","-disable-llvm-passes","-emit-llvm","-c",VERIF+"/stubs/strinst.cpp"],out,"strings")
        return out
    def bc(self,hfile,var,defs=(),sim=True):
        key=os.path.basename(hfile).replace(".cpp","")+"-"+var+("-"+hashlib.md5(repr(defs).encode()).hexdigest()[:6] if defs else "")+("" if sim else "-nosim"); out=os.path.join(self.dir,key+".linked.bc")
        with once(out):
            if os.path.exists(out): return out
            with cf.ThreadPoolExecutor(3) as ex:
                h=os.path.join(self.dir,key+".h.bc"); f1=ex.submit(self._cc,[CLANG]+COMMON+list(defs)+VARIANTS[var]+BC+[os.path.join(VERIF,"harness",hfile)],h,"harness "+hfile)
                f2=ex.submit(self.bc_sim,var,()) if sim else None; f3=ex.submit(self.bc_str); f1.result(); parts=[h]+([f2.result()] if sim else [])+[f3.result()]
            tmp=out+".tmp%d"%os.getpid(); rc,o=sh(["/usr/lib/llvm-18/bin/llvm-link"]+parts+["-o",tmp])
            if rc: raise BuildError("llvm-link: "+o[-2000:])
            os.rename(tmp,out)
        return out
    # native builds for replay; mode: plain | asan | tsan
    def native_sim(self,var,mode):
        out=os.path.join(self.dir,"simn-%s-%s.o"%(var,mode))
        with once(out):
            if os.path.exists(out): return [out]
            fl=self.nflags(var,mode)
            try: self._cc(fl+["-c",self.unity("unity",sim_sources())],out,"native "+var); return [out]
            except BuildError:
                parts=[]
                for s in sim_sources():
                    o=os.path.join(self.dir,"simn-%s-%s-%s.o"%(var,mode,os.path.basename(s))); self._cc(fl+["-c",s],o,"native "+s); parts.append(o)
                return parts
    def nflags(self,var,mode):
        if mode=="plain": return [GXX]+COMMON+VARIANTS[var]+["-O1","-g1","-fopenmp","-ffp-contract=off"]
        if mode=="asan": return [GXX]+COMMON+VARIANTS[var]+["-O1","-g1","-fopenmp","-ffp-contract=off","-D_GLIBCXX_SANITIZE_VECTOR","-fsanitize=address,undefined","-fno-sanitize-recover=undefined,float-cast-overflow","-fsanitize=float-cast-overflow"]
        if mode=="tsan": return [CLANG]+COMMON+VARIANTS[var]+["-O1","-g1","-fopenmp","-ffp-contract=off","-fsanitize=thread","-isystem",VERIF+"/stubs/omp"]
    def native(self,hfile,entry,var,mode,defs=(),sim=True):
        key=os.path.basename(hfile).replace(".cpp","")+"-"+entry+"-"+var+"-"+mode+("-"+hashlib.md5(repr(defs).encode()).hexdigest()[:6] if defs else ""); out=os.path.join(self.dir,key+".exe")
        with once(out):
            if os.path.exists(out): return out
            fl=self.nflags(var,mode)+list(defs); h=out+".h.o"; n=out+".n.o"
            with cf.ThreadPoolExecutor(3) as ex:
                f1=ex.submit(self._cc,fl+["-c",os.path.join(VERIF,"harness",hfile)],h,"native harness"); f2=ex.submit(self.native_sim,var,mode) if sim else None
                f3=ex.submit(self._cc,fl+["-DVP_ENTRY="+entry,"-c",VERIF+"/harness/vp_native.cpp"],n,"vp_native"); f1.result(); f3.result(); objs=[h,n]+(f2.result() if sim else [])
            lk=[x for x in fl if not x.startswith("-D") and x!="-w"]
            if mode=="tsan":
                k=os.path.join(self.dir,"minikmp-tsan.o")
                with once(k): self._cc([CLANG,"-O1","-g1","-fsanitize=thread","-c",VERIF+"/stubs/minikmp.cpp"],k,"minikmp")
                objs.append(k); lk=[CLANG,"-fsanitize=thread","-lpthread"]
            tmp=out+".tmp%d"%os.getpid(); rc,o=sh(lk+objs+["-o",tmp]+(["-lpthread"] if mode=="tsan" else []))
            if rc: raise BuildError("native link: "+o[-2000:])
            os.rename(tmp,out)
        return out

def ensure_engine():
    exe=os.path.join(BUILD,"symir"); os.makedirs(BUILD,exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD,".lock"),"w") as l:
        fcntl.flock(l,fcntl.LOCK_EX)
        rc,o=sh(["make","-s","-C",VERIF+"/engine","-j4","OUT="+BUILD],timeout=1200)
        if rc: raise BuildError("engine: "+o[-3000:])
    return exe

class Job:
    """one harness entry on one variant"""
    def __init__(self,file,entry,variants,time=240,branch=3.0,assert_=15.0,sim=True,defs=(),name_limit=None,desc="",bounds="",required=None,env=None,validate=True,jobs=None,tol=1e-6):
        self.__dict__.update(locals()); del self.__dict__["self"]

def write_input(path,rec):
    with open(path,"w") as f:
        for k,v in rec.get("choices",{}).items(): f.write("c %s %d\n"%(k,v))
        for k,v in rec.get("inputs",{}).items(): f.write("r %s %.17g\n"%(k,v if v is not None else 0.0))
def run_native(exe,inp,timeout=60,valgrind=False,cwd=None):
    env=dict(os.environ,VP_INPUT=inp,VP_TIER=TIER,OMP_NUM_THREADS="2",ASAN_OPTIONS="detect_leaks=0:exitcode=77",UBSAN_OPTIONS="halt_on_error=1:exitcode=78",TSAN_OPTIONS="exitcode=66:halt_on_error=0")
    cmd=[exe]
    if valgrind: cmd=["valgrind","-q","--error-exitcode=79","--track-origins=no",exe]
    with tempfile.TemporaryDirectory() as td: return sh(cmd,timeout=timeout,env=env,cwd=cwd or td)

def replay(b,job,var,rec,path):
    """returns (confirmed, text)"""
    write_input(path,rec); kind=rec["kind"]
    if kind=="assert":
        exe=b.native(job.file,job.entry,var,"plain",job.defs,job.sim); rc,o=run_native(exe,path); fl=[l for l in o.splitlines() if l.startswith("VP FAIL")]
        if fl: return True,fl[0]
        if rc<0 or rc in (134,139): return True,"native run crashed rc=%d"%rc
        return False,"rc=%d"%rc
    if kind in ("memory","ub","abort","exception","stack-overflow","trap"):
        exe=b.native(job.file,job.entry,var,"asan",job.defs,job.sim); rc,o=run_native(exe,path,timeout=120)
        if rc not in (0,3,4): 
            m=re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*failed[^\n]*|terminate called[^\n]*)",o); return True,(m.group(1) if m else "rc=%d"%rc)
        if "VP FAIL" in o: return True,[l for l in o.splitlines() if l.startswith("VP FAIL")][0]
        return False,"rc=%d"%rc
    if kind=="uninit":
        exe=b.native(job.file,job.entry,var,"plain",job.defs,job.sim); rc,o=run_native(exe,path,timeout=240,valgrind=True)
        if rc==79: 
            m=re.search(r"(Conditional jump[^\n]*|Use of uninit[^\n]*|Invalid [^\n]*)",o); return True,(m.group(1) if m else "valgrind error")
        if "VP FAIL" in o: return True,"native assertion failure"
        return False,"valgrind rc=%d"%rc
    if kind=="race":
        exe=b.native(job.file,job.entry,var,"tsan",job.defs,job.sim)
        for _ in range(6):
            rc,o=run_native(exe,path,timeout=120)
            if "WARNING: ThreadSanitizer: data race" in o:
                m=re.search(r"#0 [^\n]*",o); return True,"ThreadSanitizer: data race "+(m.group(0) if m else "")
        return False,"tsan rc=%d"%rc
    return False,"?"

def validate_reach(b,job,var,rec,path):
    write_input(path,rec); exe=b.native(job.file,job.entry,var,"plain",job.defs,job.sim); rc,o=run_native(exe,path); seen=("VP reach "+rec["label"]) in o.splitlines(); obs={}
    for l in o.splitlines():
        m=re.match(r"VP obs (\S+) (\S+)",l)
        if m: obs[m.group(1)]=float(m.group(2))
    bad=[]; n=0
    for k,v in rec.get("observed",{}).items():
        if v is None or k not in obs: continue
        n+=1
        if abs(v-obs[k])>job.tol*(1+abs(v)): bad.append("%s engine=%.12g native=%.12g"%(k,v,obs[k]))
    return {"reached":seen,"compared":n,"mismatch":bad,"rc":rc}

def demangle(names):
    if not names: return []
    p=subprocess.run(["c++filt"],input="\n".join(names).encode(),stdout=subprocess.PIPE); return p.stdout.decode().splitlines()

def known_findings():
    p=os.path.join(VERIF,"known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def run_job(b,exe,job,var,jobs):
    t0=time.time(); bc=b.bc(job.file,var,job.defs,job.sim); tb=time.time()-t0
    out=os.path.join(b.dir,"%s-%s-%s-%d.jsonl"%(job.file.replace(".cpp",""),job.entry,var,os.getpid()))
    cmd=[exe,bc,job.entry,out,"--jobs",str(job.jobs or jobs),"--time",str(job.time*(3 if TIER=="thorough" else 1)),"--branch",str(job.branch),"--assert",str(job.assert_*(4 if TIER=="thorough" else 1))]
    if job.name_limit: cmd+=["--name-limit",str(job.name_limit)]
    env=dict(os.environ); env.update(job.env or {}); env["VP_TIER"]=TIER
    rc,o=sh(cmd,timeout=job.time*4+120,env=env); recs=[]
    for l in open(out,errors="replace"):
        try: recs.append(json.loads(l))
        except Exception: recs.append({"type":"garbled"})
    try: os.unlink(out)
    except OSError: pass
    return {"job":job,"var":var,"rc":rc,"out":o,"recs":recs,"build_s":tb,"wall_s":time.time()-t0}

def check(pid,jobs_list,assumptions,notes=""):
    t0=time.time(); ev={}; os.makedirs(VERIF+"/evidence",exist_ok=True); os.makedirs(VERIF+"/replay",exist_ok=True)
    exe=ensure_engine(); b=Builder(); work=[(j,v) for j in jobs_list for v in j.variants]
    if os.environ.get("VP_ONLY"): work=[(j,v) for j,v in work if re.search(os.environ["VP_ONLY"],j.entry+":"+v)]
    par=min(len(work),max(1,JOBS//2)); per=max(2,min(JOBS,2*JOBS//max(1,par))); results=[]; 
    native_pre=cf.ThreadPoolExecutor(2)
    with cf.ThreadPoolExecutor(par) as ex:
        futs=[ex.submit(run_job,b,exe,j,v,per) for j,v in work]
        for f in futs: results.append(f.result())
    viol=[]; unconf=[]; problems=[]; known=[]; hj=[]; reach_tot=0; val_ok=0; val_cmp=0; kf=[k for k in known_findings() if k.get("property")==pid and k.get("status")=="known"]
    tot=dict(queries=0,sat=0,unsat=0,unknown=0,secs=0.0,paths=0,asserts=0,syntactic=0,quick=0,insns=0); funcs=set(); labels=set()
    def process(r):
        job,var=r["job"],r["var"]; recs=r["recs"]; tag="%s/%s"%(job.entry,var); S=[x for x in recs if x["type"]=="summary"]; local={"viol":[],"unconf":[],"prob":[],"reach":[]}
        if not S: local["prob"].append(tag+": engine gave no summary: "+r["out"][-400:]); return r,local
        s=S[-1]
        if s["crash"]: local["prob"].append(tag+": engine crashed")
        if s["limited"]: local["prob"].append(tag+": exploration budget reached on %d paths"%s["limited"])
        seen=set()
        for x in recs:
            if x["type"]=="unsupported": local["prob"].append(tag+": unsupported: "+x["what"]+" at "+x.get("where",""))
            elif x["type"]=="unknown-assert": local["prob"].append(tag+": solver undecided: "+x["label"])
            elif x["type"]=="reach-unknown": pass
            elif x["type"]=="violation":
                key=(x["label"],x["kind"])
                if key in seen: continue
                path=os.path.join(VERIF,"replay","%s-%s-%s-%s.txt"%(pid,job.entry,var,re.sub(r"\W+","_",x["label"])[:40]))
                try: ok,txt=replay(b,job,var,x,path)
                except BuildError as e: ok,txt=False,"replay build failed: "+str(e)[-300:]
                x["replay"]=txt; x["path"]=path; x["tag"]=tag
                if ok: seen.add(key); local["viol"].append(x)
                else: local["unconf"].append(x)
            elif x["type"]=="reach" and job.validate:
                path=os.path.join(b.dir,"w-%s-%s-%s.txt"%(job.entry,var,re.sub(r"\W+","_",x["label"])[:40]))
                try: local["reach"].append((x["label"],validate_reach(b,job,var,x,path)))
                except BuildError as e: local["prob"].append(tag+": native build: "+str(e)[-300:])
        local["unconf"]=[u for u in local["unconf"] if (u["label"],u["kind"]) not in seen]
        return r,local
    with cf.ThreadPoolExecutor(4) as ex: done=list(ex.map(process,results))
    for r,local in done:
        job,var=r["job"],r["var"]; tag="%s/%s"%(job.entry,var); recs=r["recs"]; st=[x for x in recs if x["type"]=="stats"]; S=[x for x in recs if x["type"]=="summary"]; s=S[-1] if S else {}
        q={k:sum(x.get(k,0) for x in st) for k in ("queries","sat","unsat","unknown","secs","quick","insns","cached")}
        for k in ("queries","sat","unsat","unknown","secs","quick","insns"): tot[k]+=q[k]
        tot["paths"]+=s.get("paths",0); tot["asserts"]+=s.get("asserts",0); tot["syntactic"]+=s.get("trivial",0)
        for x in recs:
            if x["type"]=="functions": funcs.update(x["list"])
            if x["type"]=="assert": labels.add(x["label"])
        got=set(l for l,_ in local["reach"]); req=set(job.required or []); miss=req-set(x["label"] for x in recs if x["type"]=="reach")
        if miss and not [x for x in recs if x["type"]=="violation"]: problems.append(tag+": reachability witness missing for "+", ".join(sorted(miss)))
        for l,v in local["reach"]:
            reach_tot+=1
            if v["reached"] and not v["mismatch"]: val_ok+=1; val_cmp+=v["compared"]
            elif not local["viol"]: problems.append(tag+": witness %s differs natively: reached=%s %s"%(l,v["reached"],v["mismatch"][:3]))
        hj.append({"harness":job.entry,"variant":var,"desc":job.desc,"bounds":job.bounds,"paths":s.get("paths",0),"assertions_checked":s.get("asserts",0),"queries":q["queries"],"solver_s":round(q["secs"],2),"wall_s":round(r["wall_s"],1),"violations":len(local["viol"]),"unconfirmed":len(local["unconf"]),"witnesses":len(local["reach"])})
        problems+=local["prob"]; unconf+=local["unconf"]
        for x in local["viol"]:
            k=[f for f in kf if re.search(f["match"],x["tag"]+" "+x["label"]+" "+x.get("where",""))]
            (known if k else viol).append((x,k[0] if k else None))
    own=[f for f in demangle(sorted(funcs)) if ("Simulation::" in f or "Object" in f or re.match(r"(N|dNdu|sgn|arange|MCC|selfDoubleDot|load|Particles|Grid)",f) or "sampl" in f.lower() or "Search" in f) and not f.startswith("std::") and "Eigen::" not in f.split("(")[0]]
    res={"property_id":pid,"tier":TIER,"outcome":"violation" if viol else "held","wall_s":round(time.time()-t0,1)}
    cov={"functions_encoded":own[:80],"harnesses":hj,"totals":{k:(round(v,2) if isinstance(v,float) else v) for k,v in tot.items()},"assertion_labels":sorted(labels)[:120],"assumptions":assumptions,"translation_validation":{"witnesses":reach_tot,"agreeing":val_ok,"values_compared":val_cmp},"inconclusive":problems[:40],"unconfirmed_counterexamples":[{"label":u["label"],"kind":u["kind"],"tag":u["tag"],"why":u.get("replay","")} for u in unconf[:20]]}
    write_evidence(pid,res,cov,notes,viol,known)
    for x,k in known: print("KNOWN-FINDING: property=%s %s"%(pid,k["what"]))
    for p in problems[:12]: print("note: inconclusive: "+p[:300])
    for u in unconf[:8]: print("note: counterexample not reproduced natively: %s %s (%s) %s"%(u["tag"],u["label"],u["kind"],u.get("replay","")))
    print("%s: %d harness runs, %d paths, %d assertions (%d closed by normalisation), %d solver queries, %.1f s solver, %d/%d witnesses confirmed natively, wall %.0f s"%(pid,len(hj),tot["paths"],tot["asserts"],tot["syntactic"],tot["queries"],tot["secs"],val_ok,reach_tot,time.time()-t0))
    done=set()
    for x,_ in viol:
        print("  %s: %s [%s] at %s\n    %s\n    native: %s"%(x["tag"],x["label"],x["kind"],x.get("where",""),x.get("detail","")[:300],x["replay"]))
    if viol:
        print("VIOLATION property=%s replay=%s"%(pid,viol[0][0]["path"])); return 1
    return 0

def write_evidence(pid,res,cov,notes,viol,known):
    t=cov["totals"]; hs=cov["harnesses"]
    e={"property":pid,"tier":TIER if TIER in("quick","thorough") else "quick","seed":int(os.environ.get("VERIF_SEED","1")),"level":"model_checking","wall_s":res["wall_s"],"violations":len(viol),
       "assumptions":cov["assumptions"],
       "coverage":dict(cov,states=t["paths"],transitions=t["insns"],traces_validated_against_impl=cov["translation_validation"]["agreeing"],
          samples=[{"harness":h["harness"],"variant":h["variant"],"bounds":h["bounds"],"paths":h["paths"],"assertions":h["assertions_checked"],"queries":h["queries"],"solver_s":h["solver_s"]} for h in hs[:6]],
          explanation="states = symbolic paths explored to completion, transitions = IR instructions executed symbolically; every assertion is decided for all values of the symbolic inputs on that path by z3 (or reduces to a constant in the term normal form). "+notes,
          solver={"name":"z3 5.3.2 (in-process API, one process per query)","queries_discharged":t["queries"],"sat":t["sat"],"unsat":t["unsat"],"unknown":t["unknown"],"seconds":round(t["secs"],2)},
          known_findings=[k["what"] for _,k in known])}
    tmp=os.path.join(VERIF,"evidence",pid+".json.tmp"); json.dump(e,open(tmp,"w"),indent=1); os.rename(tmp,os.path.join(VERIF,"evidence",pid+".json"))

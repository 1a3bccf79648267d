import json,os,subprocess,sys,multiprocessing,time,shutil,re
ALL=["C%02d"%i for i in range(1,23)]
ORDER={
 "parse.py":["C01","C16","C02","C20"],"types.py":["C01","C16","C02","C10"],"serialize.py":["C02","C03","C04","C21"],
 "map.py":["C18","C20","C17"],"validate.py":["C19","C20","C21"],"process_parse_model_convert.py":["C04","C17"],
 "xml_parse.py":["C20","C01","C16","C21"],"logger.py":["C22"],
 "process.py":["C05","C09","C10","C11","C12","C07","C08","C13","C14","C16","C15","C06","C17","C04","C18"],
 "resolver.py":["C05","C15","C06","C07","C08","C14","C17","C22"],"graph.py":["C05","C15","C06","C07","C08","C14","C17","C22"],
 "graph_builder.py":["C05","C15","C06","C07","C17","C22"],"graph_elements.py":["C05","C15","C06","C17","C22","C07"],
 "parser_exception_warning.py":["C01"]}
def order(f): return ORDER[f]+[c for c in ("C22","C17") if c not in ORDER[f]][:1]
V=sys.argv[2] if len(sys.argv)>2 else "/verif"
WALL=os.environ.get("MWALL","12")
def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS,(5<<30,5<<30))
def sh(cmd,cwd,env,t):
    p=subprocess.Popen(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
    try:
        o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return -9,""
def one(w,m,idx):
    path,s,e,rep,desc=m
    W=f"/tmp/mut/w{w}"
    rel=os.path.relpath(path,"/repo")
    b=open(path,'rb').read()
    tgt=os.path.join(W,rel)
    open(tgt,'wb').write(b[:s]+rep.encode()+b[e:])
    env={**os.environ,"PYTHONPATH":W+"/src","PYTHONHASHSEED":"0","PYTHONDONTWRITEBYTECODE":"1","PYTEST_DISABLE_PLUGIN_AUTOLOAD":"1","LC_ALL":"C.UTF-8"}
    r={"i":idx,"desc":desc}
    try:
        env2={**os.environ,"SVDMON_REPO":W,"SVDMON_WORKERS":"1","SVDMON_WALL":WALL,"PYTHONPATH":V2(w),"PYTHONDONTWRITEBYTECODE":"1","PYTHONHASHSEED":"0","VERIF_SEED":"1"}
        odd=[]
        for c in order(os.path.basename(path)):
            rc,o=sh(["/opt/venv/bin/python","-m","svdmon.run",c],V2(w),env2,float(WALL)+120)
            if "VIOLATION property" in o:
                r["killed"]=c; r["odd"]=odd; return r
            if rc!=0: odd.append((c,rc,o[-300:]))
        r["killed"]=None; r["odd"]=odd
        rc,o=sh(["/opt/venv/bin/python","-m","pytest","-q","-x","-p","no:cacheprovider","tests"],W,env,90)
        if rc!=0: r["killed"]="tests"
        return r
    finally:
        open(tgt,'wb').write(b)
def V2(w): return f"/tmp/mut/v{w}"
def worker(w,q,out):
    while True:
        try: idx,m=q.get(timeout=5)
        except Exception: return
        r=one(w,m,idx)
        with open(out,"a") as f: f.write(json.dumps(r)+"\n")
MODE2=os.environ.get("MODE2")
NW=int(os.environ.get("NW","6"))
if __name__=="__main__":
    ms=json.load(open("/tmp/mut/mutants.json"))
    out=sys.argv[1]
    done=set()
    if os.path.exists(out): done={json.loads(l)["i"] for l in open(out)}
    only=None
    if MODE2: only={json.loads(l)["i"] for l in open(MODE2) if json.loads(l)["killed"] is None}
    for w in range(NW):
        shutil.rmtree(f"/tmp/mut/w{w}",ignore_errors=True); shutil.copytree("/repo",f"/tmp/mut/w{w}",ignore=shutil.ignore_patterns(".git","__pycache__"))
        shutil.rmtree(f"/tmp/mut/v{w}",ignore_errors=True); shutil.copytree("/verif",f"/tmp/mut/v{w}",ignore=shutil.ignore_patterns(".git","__pycache__","evidence"))
    q=multiprocessing.Queue()
    for i,m in enumerate(ms):
        if i not in done and (only is None or i in only): q.put((i,m))
    ps=[multiprocessing.Process(target=worker,args=(w,q,out)) for w in range(NW)]
    [p.start() for p in ps]; [p.join() for p in ps]

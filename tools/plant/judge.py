import sys,os,json,subprocess,shutil,concurrent.futures as cf,time
V=os.environ.get("JV","/verif")
def one(i,prop=None):
    W=f"/tmp/seed/j-{i}"
    shutil.rmtree(W,ignore_errors=True)
    shutil.copytree("/repo",W,ignore=shutil.ignore_patterns("__pycache__"))
    r=subprocess.run(["git","-C",W,"apply",f"/verif/seeded/{i}/patch.diff"],capture_output=True,text=True)
    assert r.returncode==0,(i,r.stderr)
    p=prop or json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
    V2=f"/tmp/seed/v-{i}"; shutil.rmtree(V2,ignore_errors=True); shutil.copytree(V,V2,ignore=shutil.ignore_patterns(".git","__pycache__","evidence","seeded"))
    t=time.time()
    env={**os.environ,"SVDMON_REPO":W,"SVDMON_WORKERS":os.environ.get("JW","4"),"PYTHONPATH":V2,"PYTHONDONTWRITEBYTECODE":"1","PYTHONHASHSEED":"0","VERIF_SEED":os.environ.get("VERIF_SEED","1"),"VERIF_TIER":"quick"}
    r=subprocess.run(["/opt/venv/bin/python","-m","svdmon.run",p],cwd=V2,env=env,capture_output=True,text=True)
    shutil.rmtree(W); shutil.rmtree(V2)
    v=[l for l in r.stdout.splitlines() if "VIOLATION" in l]
    print(i,p,"CAUGHT" if r.returncode==1 and v else f"MISSED rc={r.returncode}",round(time.time()-t),(r.stdout.strip().splitlines() or [""])[-1][:160] if not v else v[0][:100],flush=True)
if __name__=="__main__":
    ids=sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
    with cf.ThreadPoolExecutor(int(os.environ.get("JP","2"))) as ex: list(ex.map(one,ids))

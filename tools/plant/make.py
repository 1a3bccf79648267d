import sys,os,json,subprocess,shutil
sys.path.insert(0,'/tmp/seed')
from common import HEAD
def make(s):
    i=s["id"]; W=f"/tmp/seed/w-{i}"
    shutil.rmtree(W,ignore_errors=True)
    shutil.copytree("/repo",W,ignore=shutil.ignore_patterns("__pycache__"))
    D=f"/verif/seeded/{i}"; shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
    base=subprocess.run(["git","-C",W,"show"],capture_output=True)
    for f,old,new in s["edits"]:
        p=f"{W}/src/svdsuite/{f}"; t=open(p).read()
        if t.count(old)!=1: print(i,"EDIT COUNT",t.count(old),old[:80]); shutil.rmtree(D); shutil.rmtree(W); return
        # original lines?
        open(p,"w").write(t.replace(old,new))
    d=subprocess.run(["git","-C",W,"diff"],capture_output=True,text=True).stdout
    removed=[l[1:] for l in d.splitlines() if l.startswith("-") and not l.startswith("---")]
    for l in removed:
        if l.strip() and not any(l in subprocess.run(["git","-C","/repo","show","4c1f06c:src/svdsuite/"+f],capture_output=True,text=True).stdout.splitlines() for f,_,_ in s["edits"]):
            print(i,"NOT ORIGINAL LINE",l)
    open(D+"/patch.diff","w").write(d)
    open(D+"/demo.py","w").write(HEAD+s["demo"].strip("\n")+"\n")
    open(D+"/demo.sh","w").write('#!/bin/sh\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'); os.chmod(D+"/demo.sh",0o755)
    json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["what"]},open(D+"/meta.json","w"),indent=1)
    a=subprocess.run(["sh",D+"/demo.sh"],cwd="/repo",capture_output=True,text=True)
    b=subprocess.run(["sh",D+"/demo.sh"],cwd=W,capture_output=True,text=True)
    t=subprocess.run(["/opt/venv/bin/python","-m","pytest","-q","-x","-p","no:cacheprovider","tests"],cwd=W,capture_output=True,text=True,env={**os.environ,"PYTHONPATH":W+"/src","PYTEST_DISABLE_PLUGIN_AUTOLOAD":"1"})
    ok=a.returncode==0 and b.returncode!=0 and t.returncode==0
    print(i,"OK" if ok else "BAD",a.returncode,b.returncode,t.returncode,t.stdout.strip().splitlines()[-1][:150],(b.stderr.strip().splitlines() or [""])[-1][:150], "" if a.returncode==0 else a.stderr[-600:],flush=True)
    shutil.rmtree(W)
    if not ok: shutil.rmtree(D)
    return ok
if __name__=="__main__":
    ns={}
    exec(open(sys.argv[1]).read(),ns)
    only=sys.argv[2:]
    for s in ns["S"]:
        if not only or s["id"] in only: make(s)

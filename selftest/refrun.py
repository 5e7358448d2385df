import os, sys, subprocess, shutil, tempfile, importlib.util
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=[x for x in sys.argv[2:] if not x.startswith('-')]
for name, edits in m.REFS:
    if only and name not in only: continue
    W=tempfile.mkdtemp(prefix="rf_",dir="/tmp")
    subprocess.run(("cp -a %s/include " % os.environ["BASE"] if "BASE" in os.environ else "git -C /repo archive HEAD include | tar x -C ") + W,shell=True,check=True)
    ok=True
    for e in edits:
        f,old,new=e[:3]; n=e[3] if len(e)>3 else 1
        p=W+"/include/gtl/"+f; t=open(p).read()
        if t.count(old)!=n: print(name,"EDITCOUNT",t.count(old),repr(old[:70])); ok=False; continue
        open(p,"w").write(t.replace(old,new))
    if ok:
        r=subprocess.run([sys.executable,"/verif/tools/all.py","--repo",W]+(["--props",os.environ["PROPS"]] if "PROPS" in os.environ else []),capture_output=True,text=True)
        print("==",name,(r.stdout+r.stderr[-800:]).strip()[:1800],flush=True)
    shutil.rmtree(W)

import sys, os, json, subprocess, shutil, importlib.util
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
spec=importlib.util.spec_from_file_location("b", sys.argv[1]); b=importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
only=set(sys.argv[2:])
PRE="from snuba_sdk import *\nfrom snuba_sdk.conditions import *\nfrom snuba_sdk.expressions import *\nfrom snuba_sdk.schema import DataModel, ColumnSet, Column as ColM\nfrom snuba_sdk.query_visitors import *\nfrom snuba_sdk.query_validation import *\nfrom snuba_sdk.timeseries import *\nfrom snuba_sdk.formula import *\nfrom snuba_sdk.metrics_query import MetricsQuery\nfrom snuba_sdk.mql.mql import *\nfrom snuba_sdk.delete_query import *\nfrom snuba_sdk.request import *\nfrom snuba_sdk.function import *\nfrom snuba_sdk.orderby import *\nfrom snuba_sdk.column import *\nfrom snuba_sdk.relationships import *\nfrom snuba_sdk.legacy import json_to_snql\nfrom snuba_sdk import *\nfrom snuba_sdk import Column, Entity, Query\nfrom datetime import *\n"
for (bid, prop, edits, demo, needs, breaks) in b.BUGS:
    if only and bid not in only: continue
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty"
    ok=True
    for f, old, new in edits:
        p=f"/repo/snuba_sdk/{f}"; s=open(p).read()
        if s.count(old)!=1: print(bid,"EDIT count",s.count(old),repr(old)[:80]); ok=False; break
        open(p,"w").write(s.replace(old,new))
    if not ok: sh("git -C /repo checkout -q -- ."); continue
    diff=sh("git -C /repo diff").stdout
    D=f"/verif/seeded/{bid}"; os.makedirs(D,exist_ok=True)
    open(D+"/patch.diff","w").write(diff)
    open(D+"/demo.py","w").write(PRE+demo.strip("\n")+"\n")
    open(D+"/demo.sh","w").write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python "$here/demo.py"\n')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(D+"/meta.json","w"),indent=1)
    bb=sh("bash /opt/vp/build.sh").returncode
    t=sh("bash /opt/vp/test.sh /tmp/plant_t.json").stdout.strip().split("\n")[-1]
    d1=sh(f"cd /repo && bash {D}/demo.sh")
    good = "518 passed, 0 failed" in t and bb==0 and d1.returncode!=0
    c=None
    if good: c=sh(f"cd /verif && timeout 900 bash run.sh {prop}")
    sh("git -C /repo checkout -q -- .")
    sh("bash /opt/vp/build.sh")
    d0=sh(f"cd /repo && bash {D}/demo.sh")
    if not good or d0.returncode:
        print(f"{bid} [{prop}] DROPPED tests={t!r} demo patched rc={d1.returncode} clean rc={d0.returncode} {d0.stderr[-200:]} {d1.stderr[-100:] if d1.returncode else ''}")
        shutil.rmtree(D); continue
    v=[l for l in c.stdout.split("\n") if l.startswith("---")][:1]
    print(f"{bid} [{prop}] check rc={c.returncode} {'CAUGHT' if c.returncode==1 else '**MISSED**'} demo:{d1.stderr.strip().splitlines()[-1][:80] if d1.stderr.strip() else ''} | {v[0][:160] if v else ''}", flush=True)

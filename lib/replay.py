#!/usr/bin/env python3
"""replay.py PROPERTY ENTRY INPUTFILE: build the harness natively from /repo and run one recorded input."""
import sys,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build,specs,run,shutil,tempfile
prop,entry,inp=sys.argv[1:4]
for j in specs.P[prop]['jobs']:
    if j.e==entry:
        wd=tempfile.mkdtemp()
        try:
            p=j.q if j.q is not None else j.t
            bc,nat=build.harness(j.h,wd,j.defs,j.ov); rc,o=run.native_run(nat,entry,inp,p); print(o); print('exit',rc); sys.exit(0 if rc==0 else 1)
        finally: shutil.rmtree(wd)

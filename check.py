#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree (tier from VERIF_TIER)."""
import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'lib'))
import run,specs
s=specs.P[sys.argv[1]]
sys.exit(run.main(sys.argv[1],s['title'],s['jobs'],s.get('assume',())))

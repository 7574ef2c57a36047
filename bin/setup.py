#!/usr/bin/env python3
"""Nothing has to be prepared: every check builds what it needs.  This only
warms the Go build cache and shows that the tools are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, shutil
r = check.Run("setup", "quick")
try:
    r.jc = r.build_java()
    r.build()
    r.build(race=True)
    print("setup ok")
except check.CheckError as e:
    print("setup: %s" % e)
    sys.exit(1)
finally:
    shutil.rmtree(r.dir, ignore_errors=True)

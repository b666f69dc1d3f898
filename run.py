#!/usr/bin/env python3
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import report
if sys.argv[1] == "--setup":
    import build
    print(build.irdump())
    sys.exit(0)
sys.exit(report.main(sys.argv))

#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vp, checks
sys.exit(vp.main(checks.CHECKS, sys.argv))

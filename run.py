#!/usr/bin/env python3
"""run.py CHECK-ID: decides one property.  See DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tool"))
import checks
sys.exit(checks.main(sys.argv[1:]))

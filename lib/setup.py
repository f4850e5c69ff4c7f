"""setup_cmd: checks that the tools are there and compiles the instrumenter (nothing the checks depend on)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
c = Ctx("setup", "cb")
c.build(["circuitbreaker"])
rc = subprocess.call(["java", "-version"], stderr=subprocess.DEVNULL)
shutil.rmtree(c.work, ignore_errors=True)
sys.exit(rc)

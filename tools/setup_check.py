#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there (each check builds what it needs itself)."""
import json, os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("g++", "python3", "Rscript") if not shutil.which(t)]
for d in ("/usr/include/eigen3", "/usr/include/nlohmann", "/opt/vp/venv/lib/python3.12/site-packages/pybind11/include", "/usr/lib/R/site-library/cpp11/include"):
    if not os.path.isdir(d):
        missing.append(d)
json.load(open(os.path.join(HERE, "MANIFEST.json")))
os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)

"""Prints every proof unit and bounded stand-in (used for section "Per property" of DESIGN.md)."""
import importlib
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, "/repo"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import api
for f in sorted(os.listdir(HERE + "/props")):
    if f[0] != "_" and f.endswith(".py") and f[0].isupper():
        pid = f[:-3]
        importlib.import_module("props." + pid)
        items = [i for i in api.REGISTRY if i.fn.__module__ == "props." + pid]
        print("##", pid)
        for i in items:
            if i.kind == "unit":
                print("P", i.name, "|", ", ".join(i.kw.get("functions") or []))
        for i in items:
            if i.kind != "unit":
                print("B", i.name, "|", i.kw.get("bound"))

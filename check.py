#!/usr/bin/env python3
"""usage: check.py <property id>   (VERIF_TIER=quick|thorough)"""
import importlib.util, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V, os.path.join(V, "checks")]
sys.dont_write_bytecode = True
pid = sys.argv[1]
spec = importlib.util.spec_from_file_location(pid, os.path.join(V, "checks", pid + ".py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
m.main()

#!/usr/bin/env python3
"""python3 check.py <property id>: decide one property on /repo's current source."""
import sys, os, importlib
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,HERE+'/pv'); sys.path.insert(0,HERE+'/checks')
sys.setrecursionlimit(20000)
import checklib
pid=sys.argv[1]
checklib.main(pid,importlib.import_module(pid.lower()))

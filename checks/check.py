#!/usr/bin/env python3
"""check.py C01 [thorough] - decide one property against /repo's current working tree."""
import os, sys
if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
os.environ.setdefault('VERIF_TIER', 'quick')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import vh
MODULES = {'clichecks': ['C33'], 'reportchecks': ['C32'], 'instchecks': ['C31'], 'streamchecks': ['C29'], 'schemachecks': ['C28'], 'cachechecks': ['C27'], 'updchecks': ['C26'], 'viewchecks': ['C24'], 'pickchecks': ['C25'], 'promptchecks': ['C21'], 'gramchecks': ['C14'], 'findchecks': ['C13'], 'linechecks': ['C22', 'C23'], 'valchecks': ['C16', 'C17'], 'effchecks': ['C11', 'C18', 'C19', 'C20', 'C30'], 'loadchecks': ['C10', 'C12', 'C15'], 'drychecks': ['C08'], 'engchecks': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09']}
def fn():
    pid = sys.argv[1]
    mod = next(m for m, ids in MODULES.items() if pid in ids)
    return getattr(__import__(mod), pid.lower())()
vh.main(fn)

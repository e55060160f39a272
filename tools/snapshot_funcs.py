"""Writes sa/functions.json: the functions the package has now, so that a helper split off later can be told from them."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.project import Project  # noqa
p = Project(inlining=False)
with open(os.path.join(H, 'sa', 'functions.json'), 'w') as f:
    json.dump(sorted(q for q in p.funcs if '<lambda>' not in q), f, indent=0)

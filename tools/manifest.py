#!/usr/bin/env python3
"""writes MANIFEST.json from checks/registry.py and the table below"""
import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[V+'/tools',V+'/engine',V+'/checks']
from mf import CLAIMS,NA
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
checks=[{'property':p,'quick_cmd':'./check %s quick'%p,'thorough_cmd':'./check %s thorough'%p,'technique':CLAIMS[p][0],'level':CLAIMS[p][1],'level_note':CLAIMS[p][2]} for p in props if p in CLAIMS]
na=[{'property':p,'reason':NA[p]} for p in props if p not in CLAIMS]
json.dump({'version':1,'setup_cmd':'./check --selftest','checks':checks,'not_applicable':na},open(V+'/MANIFEST.json','w'),indent=1)

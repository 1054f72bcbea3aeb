#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from lib/props.py (the single source of the property texts)."""
import json,os,sys
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(H); sys.path.insert(0,H)
from props import PROPS,NA
with open(V+'/properties.jsonl','w') as f:
    for i in sorted(PROPS):
        p=PROPS[i]; assert len(p['title'])<=80,(i,len(p['title']))
        f.write(json.dumps(dict(id=i,title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['qtext']),why_tests_cant=p['why'],anchors=dict(files=p['files'],mechanism=[dict(name=a,where=b) for a,b in p['mech']],hook_needed=None)))+'\n')
    for i,p in sorted(NA.items()):
        f.write(json.dumps(dict(id=i,title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['qtext']),why_tests_cant=p['why'],anchors=dict(files=p['files'],mechanism=[]))) +'\n')
m=dict(version=1,setup_cmd='python3 lib/vc.py build',
 hooks=dict(guard='(none)',enable='No hooks: the checks compile a ported copy of /repo/nntl (lib/port.py adds only typename/template/qualifiers that clang needs) made from the working tree at every run; thread primitives and clocks are interposed at link time.',source_commits=[]),
 checks=[dict(property=i,quick_cmd='python3 lib/vc.py check %s quick'%i,thorough_cmd='python3 lib/vc.py check %s thorough'%i,technique=PROPS[i]['technique'],level=PROPS[i]['level'],level_note=PROPS[i]['note']) for i in sorted(PROPS)],
 not_applicable=[dict(property=i,reason=p['reason']) for i,p in sorted(NA.items())],
 notes='lib/vc.py is the driver; lib/mc.hpp the sequential explorer; lib/sched_native.cpp the controlled scheduler and race detector; see DESIGN.md.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')

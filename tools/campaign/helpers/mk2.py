#!/usr/bin/env python3
"""mk.py ID PROP NEEDS BREAKS < main.rs ; edits given via /tmp/edit.py"""
import sys,os,shutil,json
id,prop,needs,breaks=sys.argv[1:5]
d=f'/tmp/planted/{id}'; os.makedirs(d,exist_ok=True)
for f in ('demo.sh','util.rs'): shutil.copy(f'/verif/tools/demo/{f}',d)
open(d+'/main.rs','w').write("mod util;\nuse util::*;\n\n"+sys.stdin.read())
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)

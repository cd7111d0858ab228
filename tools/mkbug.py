import os, subprocess, json, sys, shutil
SH='''#!/bin/bash
# run with the current directory at the root of the code under test; exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
def bug(id, prop, edits, needs, breaks, demo):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    d='/verif/seeded/'+id; os.makedirs(d, exist_ok=True)
    import difflib
    diff=''
    cur={}
    for e in edits:
        p=e[0]; s=cur.get(p) or open('/repo/'+p).read(); n=e[3] if len(e)>3 else 1
        assert s.count(e[1])==n, (id, p, s.count(e[1]))
        cur[p]=s.replace(e[1],e[2])
    for p,t in cur.items():
        a=open('/repo/'+p).read().splitlines(True); b=t.splitlines(True)
        diff+=''.join(x if x.endswith(chr(10)) else x+chr(10)+'\\ No newline at end of file'+chr(10) for x in difflib.unified_diff(a,b,'a/'+p,'b/'+p))
    diff=diff.encode()
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.sh','w').write(SH); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+'/meta.json','w'), indent=1)
    print(id)

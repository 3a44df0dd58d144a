#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  -- reads from stdin JSON {edits:[[file,old,new]...], needs, breaks, demo}"""
import json,os,subprocess,sys,shutil
sys.path.insert(0,'/tmp')
def mk(id,prop,edits,needs,breaks,demo,world=True,demosh=None,extra=None):
    sc='/tmp/sc'
    if os.path.isdir(sc): subprocess.run(['git','-C','/repo','worktree','remove','--force',sc])
    subprocess.run(['git','-C','/repo','worktree','prune'])
    subprocess.run(['git','-C','/repo','worktree','add','-f','--detach',sc,'HEAD'],check=True,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    for f,a,b in edits:
        p=os.path.join(sc,f); s=open(p).read()
        assert s.count(a)==1,(id,f,s.count(a),a)
        open(p,'w').write(s.replace(a,b))
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    diff=subprocess.run(['git','-C',sc,'diff'],stdout=subprocess.PIPE,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    if world: shutil.copy('/verif/tools/demo/world_test.go',d+'/world_test.go')
    open(d+'/demo_test.go','w').write(demo)
    shutil.copy('/verif/tools/demo/demo.sh' if demosh is None else demosh,d+'/demo.sh')
    os.chmod(d+'/demo.sh',0o755)
    subprocess.run(['gofmt','-w',d+'/demo_test.go'])
    subprocess.run(['git','-C','/repo','worktree','remove','--force',sc])

import subprocess,os,sys,json,shutil
W='/tmp/seed/w'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def mk(id,prop,edits,needs,breaks,files,demo):
    """edits: [(file,old,new)], files: {name:content}, demo: shell text"""
    shutil.rmtree(W,ignore_errors=True); sh('cp -a /repo %s'%W); 
    D='/verif/seeded/'+id; shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
    for n,c in files.items(): open(D+'/'+n,'w').write(c)
    open(D+'/demo.sh','w').write('#!/bin/bash\n'+demo); os.chmod(D+'/demo.sh',0o755)
    for f,o,n in edits:
        s=open(W+'/'+f).read()
        if s.count(o)!=1: print(id,'EDIT COUNT',s.count(o),f); return False
        open(W+'/'+f,'w').write(s.replace(o,n))
    d=sh('git -C %s diff'%W).stdout; open(D+'/patch.diff','w').write(d)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(D+'/meta.json','w'),indent=1)
    a=sh('cd /repo && bash %s/demo.sh'%D)
    # apply to /repo, build, test, demo, undo
    r=sh('git -C /repo apply %s/patch.diff'%D)
    try:
        b=sh('bash /opt/vp/build.sh'); t=sh('bash /opt/vp/test.sh /tmp/seed/o.json')
        base=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed/o.json'))
        c=sh('cd /repo && bash %s/demo.sh'%D)
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    st=base.get('stable') or base.get('tests') or base.get('passed') or base
    ps=o.get('passed') or [k for k,v in (o.get('results') or o).items() if v in('pass','passed',True)]
    miss=[x for x in st if x not in ps] if isinstance(st,list) else str(type(st))
    print(id,'apply',r.returncode,'build',b.returncode,'missing',miss,'demo clean',a.returncode,'demo patched',c.returncode, (a.stdout+a.stderr)[-200:] if a.returncode else '')
    return a.returncode==0 and c.returncode!=0 and b.returncode==0 and not miss

#!/usr/bin/env python3
"""plant.py: reads a plan from stdin and stores a planted bug.
JSON: {id, property, needs, what, file, edits:[[old,new],...], demo: go source}"""
import json,sys,subprocess,os,shutil,tempfile
def plant(p):
    d='/verif/seeded/'+p['id']; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(dir='/tmp'); subprocess.check_call(['cp','-a','/repo',w+'/repo'])
    r=w+'/repo/'
    for e in p['edits']:
        f=p['file'] if len(e)==2 else e[0]
        old,new=e[-2:]
        s=open(r+f).read()
        assert s.count(old)==1,(p['id'],f,s.count(old),old)
        open(r+f,'w').write(s.replace(old,new))
    open(d+'/patch.diff','wb').write(subprocess.check_output(['git','-C',r,'diff']))
    shutil.rmtree(w)
    open(d+'/main.go','w').write(p['demo'].lstrip())
    shutil.copy('/verif/tools/demo.sh',d+'/demo.sh')
    json.dump({'property':p['property'],'needs':p['needs'],'what_it_breaks':p['what']},open(d+'/meta.json','w'),indent=1)
if __name__=='__main__':
    ns={}
    exec(sys.stdin.read(),ns)
    for p in ns['plans']: plant(p)
    ids=[p['id'] for p in ns['plans']]
    subprocess.call(['bash','/verif/tools/confirm.sh']+ids)

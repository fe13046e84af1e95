"""mk(id, prop, needs, breaks, edits, demos, tags='', flags=''): edits [(file, old, new)], demos {dir: test source}."""
import json,os,subprocess,shutil
def mk(id, prop, needs, breaks, edits, demos, tags='', flags=''):
    d='/verif/seeded/'+id
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    assert subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout=='', 'dirty'
    for f,o,n in edits:
        p='/repo/'+f; s=open(p).read()
        assert s.count(o)==1,(f,o,s.count(o))
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    shutil.copy('/verif/tools/seed/demo.sh',d+'/demo.sh')
    for k,v in demos.items(): open(f"{d}/{k.replace('/','__')}__demo_test.go.txt",'w').write(v)
    if tags: open(d+'/tags','w').write(tags)
    if flags: open(d+'/flags','w').write(flags)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)

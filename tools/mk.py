import os,sys,json,subprocess,shutil,tempfile
OUT='/verif/seeded'
BUGS=[]
def bug(id,prop,edits,needs,breaks,body):
    BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,body=body))
def pybug(id,prop,edits,needs,breaks,body):
    BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,body=body,py=True))
exec(open('/tmp/pb/bugs1.py').read())
for extra in ('/tmp/pb/bugs2.py','/tmp/pb/bugs3.py'):
    if os.path.exists(extra): exec(open(extra).read())
only=sys.argv[1:]
base=tempfile.mkdtemp(prefix='pbsrc')
subprocess.run(f'git -C /repo archive HEAD | tar -x -C {base} && cd {base} && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x',shell=True,check=True)
for b in BUGS:
    if only and b['id'] not in only: continue
    for (f,old,new,*nth) in b['edits']:
        p=f'{base}/{f}'; s=open(p).read()
        n=nth[0] if nth else None
        c=s.count(old)
        assert c>=1,(b['id'],f,'not found',old)
        if n is None:
            assert c==1,(b['id'],f,c,old); s=s.replace(old,new)
        else:
            parts=s.split(old); assert len(parts)>n+1
            s=old.join(parts[:n+1])+new+old.join(parts[n+1:])
        open(p,'w').write(s)
    diff=subprocess.run(['git','-C',base,'diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C',base,'checkout','-q','--','.'],check=True)
    d=f'{OUT}/{b["id"]}'; os.makedirs(d,exist_ok=True)
    open(f'{d}/patch.diff','w').write(diff)
    py=b.get('py')
    if py: open(f'{d}/demo.py','w').write(b['body'].strip()+'\n')
    else: open(f'{d}/main.rs','w').write(open('/tmp/pb/prelude.rs').read()+'\n'+b['body'].strip()+'\n')
    shutil.copy('/tmp/pb/tp/Cargo.lock' if py else '/tmp/pb/t/Cargo.lock',f'{d}/Cargo.lock')
    shutil.copy('/tmp/pb/demo_py.sh' if py else '/tmp/pb/demo.sh',f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh',0o755)
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(f'{d}/meta.json','w'),indent=1)
    print(b['id'],len(diff.splitlines()))
shutil.rmtree(base)

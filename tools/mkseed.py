#!/usr/bin/env python3
"""mkseed.py DEF.py [ID-PREFIX...]: write /verif/seeded/<id>/ from a definition file.
A definition is SEEDS, a list of dicts: id, property, kind, edits [(path, old, new)], needs, breaks,
demo (body of main), setup. The tree that is edited (and restored) is $SEED_REPO, default /repo.
kind: democracy, elections, vesting (stand-alone runtimes in seedlib) or kit:<crate>, where the
runtime is the top part of harness/<crate>/src/main.rs and the stand-in crates it needs are copied
beside the demonstration."""
import sys, os, subprocess, json, runpy, shutil, re
V='/verif'; L=V+'/tools/seedlib/'; H=V+'/harness/'; R=os.environ.get('SEED_REPO','/repo')
CUT={'release':'const L: &str','proxy':'const B: &str','staking':'/// custody, delegation books','claims':'struct Sch {','oracle':'const WHO'}
def closure(toml, base):
    seen=[]
    def go(t,b):
        for p in re.findall(r'path = "(\.\.?/[^"]*)"',open(t).read()):
            q=os.path.normpath(os.path.join(b,p))
            if not q.startswith(H.rstrip('/')+'/stubs') and not q.startswith(H.rstrip('/')+'/wrap') and not q.endswith('/mon'): continue
            if q not in seen: seen.append(q); go(q+'/Cargo.toml',q)
    go(toml,base); return seen
def kit(c,out,s):
    src=H+c+'/'
    t=open(src+'Cargo.toml').read()
    mon='mon::' in s.get('demo','')+s.get('items','') or c in ('oracle','runtime')
    if not mon: t=re.sub(r'^mon = .*\n','',t,flags=re.M)
    t=t.replace(f'name = "mon-{c}"','name = "demo"').replace('"../','"')
    t+='\n[workspace]\n\n[profile.dev]\ndebug = 0\n'
    open(out+'/Cargo.toml','w').write(t)
    for q in closure(src+'Cargo.toml',src):
        n=q[len(H):]
        if n=='mon' and not mon: continue
        shutil.copytree(q,out+'/'+n,dirs_exist_ok=True,ignore=shutil.ignore_patterns('target'))
    shutil.copy(H+'Cargo.lock',out+'/Cargo.lock')
    if c=='runtime':
        # what is taken out of the runtime's source is compiled by the same build script
        tt=open(out+'/Cargo.toml').read().replace('build = "build.rs"','build = "src/build.rs"')
        open(out+'/Cargo.toml','w').write(tt)
        shutil.copy(src+'build.rs',out+'/build.rs')
        for m in ['collective','env','fees','prices','rt','txenv','txs','work','xenv']: shutil.copy(src+f'src/{m}.rs',out+f'/{m}.rs')
        top='#![allow(unused_imports, dead_code)]\n'
    elif c=='funding':
        shutil.copy(src+'src/rt.rs',out+'/rt.rs'); top='#![allow(unused_imports, dead_code)]\nmod rt;\nuse rt::*;\n'
    else:
        top=open(src+'src/main.rs').read(); i=top.index(CUT[c]); top=top[:i]
        # no attribute or comment line that belonged to what was cut off
        while top.rstrip().split('\n')[-1].startswith(('#[','///')): top=top.rstrip().rsplit('\n',1)[0]+'\n'
        if not mon: top=re.sub(r'^use mon::.*\n','',top,flags=re.M)
        top='\n'.join(l for l in top.split('\n') if not l.startswith('//!'))
        top='#![allow(unused_imports, dead_code)]\n'+top
    return top
for f in sys.argv[1:2]:
    d=runpy.run_path(f)
    for s in d['SEEDS']:
        if len(sys.argv)>2 and not any(s['id'].startswith(x) for x in sys.argv[2:]): continue
        out=f"{V}/seeded/{s['id']}"; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        saved={}
        for path,old,new in s['edits']:
            p=R+'/'+path; t=open(p).read(); saved.setdefault(p,t)
            if t.count(old)!=1:
                for q,x in saved.items(): open(q,'w').write(x)
                sys.exit((s['id'],path,t.count(old),old))
            open(p,'w').write(t.replace(old,new))
        diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
        for p,t in saved.items(): open(p,'w').write(t)
        open(out+'/patch.diff','w').write(diff)
        k=s['kind']
        shutil.copy(L+'demo.sh',out+'/demo.sh')
        body='\n'.join('\t\t'+l if l.strip() else '' for l in s['demo'].strip('\n').split('\n'))
        if k.startswith('kit:'):
            c=k[4:]
            pre=d['KITS'][c]
            if 'inside' in pre:
                # the demonstration sees one module of the harness from inside
                main=kit('runtime',out,s)+pre['items']
                open(out+f"/{pre['module']}.rs",'a').write(pre['inside']+'pub fn demo() {\n'+body.replace('\n\t','\n')[1:]+'\n}\n')
                open(out+'/main.rs','w').write(main)
                c=None
            if c is None:
                json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(out+'/meta.json','w'),indent=1); open(out+'/meta.json','a').write('\n')
                continue
            main=kit(c,out,s)+pre['items']+s.get('items','')+'\nfn main() {\n'+pre['open'].replace('@SETUP@',s.get('setup',''))+body+'\n'+pre['close']+'\n\tprintln!("ok");\n}\n'
            open(out+'/main.rs','w').write(main)
        else:
            shutil.copy(L+k+'.toml',out+'/Cargo.toml'); shutil.copy(L+k+'_rt.rs',out+'/rt.rs')
            open(out+'/main.rs','w').write(open(L+k+'_main.rs').read().replace('@SETUP@',s.get('setup','')).replace('@BODY@',body))
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(out+'/meta.json','w'),indent=1); open(out+'/meta.json','a').write('\n')
        print('wrote',s['id'])

#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the descriptions in seeds/*.py: patch against /repo's HEAD, demo, meta.
   mkseeds.py [id...]           write      mkseeds.py --verify [id...]  also build, test, demo both ways and run the property's check"""
import json, os, shutil, subprocess, sys, tempfile, glob, runpy
V='/verif'; L=V+'/tools/dev/seedlib'
RUST='''#![allow(dead_code, unused_imports)]
mod yul2ir {
    use lalrpop_util::lalrpop_mod;
    lalrpop_mod!(pub yul);
    pub mod ast;
    pub mod utils;
}
fn parse(s: &str) -> Result<yul2ir::ast::Object, String> {
    yul2ir::yul::ObjectParser::new().parse(&yul2ir::utils::remove_comments(s)).map_err(|e| format!("{e:?}"))
}
fn check(what: &str, got: &str, want: &str) {
    if got != want { println!("FAIL {what}: got {got}, expected {want}"); std::process::exit(1); }
    println!("ok {what}");
}
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
seeds={}
for f in sorted(glob.glob(V+'/tools/dev/seeds/*.py')): seeds.update(runpy.run_path(f)['SEEDS'])
args=[a for a in sys.argv[1:] if not a.startswith('--')]
for sid,s in seeds.items():
    if args and sid not in args: continue
    d=f'{V}/seeded/{sid}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    W=tempfile.mkdtemp(prefix='seed'); 
    sh(f'GIT_LFS_SKIP_SMUDGE=1 git clone -q /repo {W}/r')
    for file,old,new in s['edits']:
        p=f'{W}/r/{file}'; t=open(p).read()
        assert t.count(old)==1, (sid,file,t.count(old),old)
        open(p,'w').write(t.replace(old,new))
    diff=sh(f'git -C {W}/r diff').stdout
    open(d+'/patch.diff','w').write(diff)
    shutil.rmtree(W)
    k=s['kind']
    if k=='std':
        for x in ('rt.c','rt.js'): shutil.copy(f'{L}/{x}', d)
        shutil.copy(f'{L}/std.sh', d+'/demo.sh')
        open(d+'/demo.js','w').write("'use strict';\nconst { open, check, toBE, fromBE } = require('./rt.js');\n"+s['demo'].strip()+'\n')
    elif k=='fe':
        for x in ('Cargo.toml.in','Cargo.lock.in','build.rs.in'): shutil.copy(f'{L}/{x}', d)
        shutil.copy(f'{L}/fe.sh', d+'/demo.sh')
        open(d+'/demo.rs','w').write(RUST+'fn main() {\n'+s['demo'].strip('\n')+'\n}\n')
    elif k=='sh':
        open(d+'/demo.sh','w').write(s['demo'].lstrip())
        for n,c in s.get('files',{}).items(): open(d+'/'+n,'w').write(c)
    elif k=='yul': # compiled with the compiler of the tree: see seedlib/yul
        T=d+'/tree'
        for x in ('tools/build.sh','tools/sync.py','tools/rt.c','lib/drv.js','lib/host.js','lib/watch.js','lib/keccak.js','lib/u256.js','harness/compiler','shims/ethereum-types','shims/inkwell','shims/keccak-hash','shims/parity-wasm','shims/wizer'):
            os.makedirs(os.path.dirname(f'{T}/{x}'),exist_ok=True)
            (shutil.copytree if os.path.isdir(f'{V}/{x}') else shutil.copy)(f'{V}/{x}',f'{T}/{x}')
        for a,_,fs in os.walk(T):
            for f in fs:
                if f in ('build.rs','Cargo.toml','Cargo.lock'): os.rename(f'{a}/{f}',f'{a}/{f}.in')
        shutil.copy(f'{L}/yul/yt.js',d)
        open(d+'/demo.sh','w').write(open(f'{L}/yul/demo.sh').read().replace('LAYER',s.get('layer','drv')))
        s['demo']="'use strict';\nconst { words, contract, compile, run, check, main, cli, toBE, fromBE } = require('./yt.js');\nmain(async () => {\n"+s['demo'].strip('\n')+'\n});'
        open(d+'/demo.js','w').write(s['demo'].strip()+'\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(d+'/meta.json','w'), indent=1)
    print(sid,'written',flush=True)
    if '--verify' in sys.argv:
        try:
            r=sh(f'bash {d}/demo.sh',cwd='/repo'); a=r.returncode
            print('  demo clean',a, '' if a==0 else r.stdout[-500:]+r.stderr[-500:],flush=True)
            assert sh('git status --porcelain',cwd='/repo').stdout==''
            assert sh(f'git apply {d}/patch.diff',cwd='/repo').returncode==0
            r=sh('bash /opt/vp/build.sh'); print('  build',r.returncode, '' if r.returncode==0 else r.stderr[-800:],flush=True)
            r=sh('bash /opt/vp/test.sh /tmp/seedtest.json'); print('  test',r.returncode,flush=True)
            r=sh(f'bash {d}/demo.sh',cwd='/repo'); print('  demo patched',r.returncode,(r.stdout.strip().split('\n') or [''])[-1][:200],flush=True)
            r=sh(f'node tools/run.js {s["property"]} quick',cwd=V); o=[l for l in r.stdout.split('\n') if l.startswith('  ')]
            print('  CHECK',s['property'],'exit',r.returncode,'caught' if r.returncode==1 and 'VIOLATION property='+s['property'] in r.stdout else 'MISSED', (o or [''])[0][:200],flush=True)
        finally:
            sh('git checkout -- .',cwd='/repo')
if '--verify' in sys.argv: sh('bash /opt/vp/build.sh')

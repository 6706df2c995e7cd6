import os,subprocess,json,sys
DEMO='''#!/bin/bash
# run in the repository; builds a small program against it and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/scratch" && cp "$here/main.rs" "$w/src/main.rs" && cp "$repo/Cargo.lock" "$w/" || exit 3
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
subtile = { path = "$repo" }
image = { version = "0.25", default-features = false, features = ["png"] }
T
cd "$w" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" cargo build --offline -q || exit 3
cd "$w/scratch" && timeout 60 "$w/target/debug/demo" "$w/scratch"
'''
def seed(id,prop,needs,breaks,edits,main,demo=DEMO):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    s='/tmp/mks'; subprocess.run(['rm','-rf',s]); subprocess.run(['git','clone','-q','/repo',s],check=True)
    for f,a,b in edits:
        t=open(s+'/'+f).read(); assert t.count(a)==1,(f,a,t.count(a)); open(s+'/'+f,'w').write(t.replace(a,b))
    diff=subprocess.run(['git','-C',s,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff); open(d+'/demo.sh','w').write(demo); open(d+'/main.rs','w').write(main)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    subprocess.run(['rm','-rf',s])

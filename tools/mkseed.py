#!/usr/bin/env python3
"""mkseed.py ID PROPERTY CRATES 'NEEDS' 'WHAT' < main.rs   - makes seeded/ID from the diff of /tmp/seed (a copy of /repo) and a program.
CRATES: comma list of yamux, tentacle, secio, multiaddr."""
import json,os,subprocess,sys
id,prop,crates,needs,what=sys.argv[1:6]
d="/verif/seeded/"+id; os.makedirs(d,exist_ok=True)
diff=subprocess.run(["git","-C","/tmp/seed","diff"],capture_output=True,text=True).stdout
assert diff.strip()
open(d+"/patch.diff","w").write(diff)
dep={"yamux":'tokio-yamux = { path = "@REPO@/yamux" }',"tentacle":'tentacle = { path = "@REPO@/tentacle", features = ["molc","ws","unstable"] }',
 "secio":'tentacle-secio = { path = "@REPO@/secio", features = ["molc"] }',"multiaddr":'tentacle-multiaddr = { path = "@REPO@/multiaddr" }'}
open(d+"/Cargo.toml.in","w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\n'
 +"\n".join(dep[c] for c in crates.split(","))+'\nbytes = "0.5"\nfutures = "0.3"\ntokio = { version = "0.2", features = ["time","dns","tcp","io-util","rt-core","rt-threaded","stream","sync"] }\ntokio-util = { version = "0.3", features = ["codec"] }\n'+("env_logger = \"0.6\"\n" if 0 else "")
 +'[profile.dev]\ndebug = false\n')
open(d+"/main.rs","w").write(sys.stdin.read().replace("#[tokio::main]\nasync fn main()",'fn main() {\n    let mut rt = tokio::runtime::Builder::new().threaded_scheduler().enable_all().build().unwrap();\n    rt.block_on(run())\n}\n\nasync fn run()'))
open(d+"/demo.sh","w").write('''#!/bin/bash
# cwd: the repository. Builds the program beside this script against it; exit 0 = behaviour as promised.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/main.rs" "$T/src/main.rs" && sed "s#@REPO@#$R#" "$D/Cargo.toml.in" > "$T/Cargo.toml" && cp "$R/Cargo.lock" "$T/Cargo.lock" || exit 3
cd "$T" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${DEMO_TARGET:-$T/target}
cargo build --offline -q 2> "$T/err" || { cat "$T/err"; exit 3; }
timeout -k 5 ${DEMO_SECS:-90} "$CARGO_TARGET_DIR/debug/demo"
''')
os.chmod(d+"/demo.sh",0o755)
json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+"/meta.json","w"),indent=1)
print("wrote",d)

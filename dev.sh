# developer helper: . dev.sh ; t WS PROP [tier]  (WS = target directory name; binary h_WS)
export RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0 RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints warn" LIBCLANG_PATH=/usr/lib/llvm-14/lib RAYON_NUM_THREADS=1
mkdir -p /tmp/w
b() { (cd /verif/harness/$1 && CARGO_TARGET_DIR=/verif/target/${2:-$1} cargo build --offline --quiet 2>&1 | grep -E "^error" -A6 | head -${3:-30}); }
t() { local out=/tmp/w/$2.jsonl; local t0=$(date +%s.%N); timeout ${T:-900} /verif/target/$1/debug/h_$1 run $2 ${3:-quick} $out; echo "== $2 $(echo "$(date +%s.%N)-$t0"|bc)s"; tail -1 $out; python3 - $out <<'P'
import json,sys,collections
c=collections.Counter(); ex={}; st=collections.Counter(); mx=0; reached=collections.Counter()
for l in open(sys.argv[1]):
    d=json.loads(l)
    if 'path' not in d: continue
    k=(d['path']['status'],d['path']['label']); c[k]+=1; ex.setdefault(k,d['case'])
    for a,b in d['path']['stats'].items():
        if a=='max_query_s': mx=max(mx,b)
        else: st[a]+=b
    for r in d['path']['reached']: reached[r]+=1
for k in c: print(c[k],k,ex[k])
print(dict(st),'maxq',mx); print(dict(reached))
P
}

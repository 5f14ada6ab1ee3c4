#!/bin/bash
# usage: mkseed.sh ID PROPERTY "needs" "what it breaks" FILE <<< python edit script operating on string s ; demo.cc text in /tmp/demo.cc
set -e
id=$1; prop=$2; needs=$3; what=$4; file=$5
d=/verif/seeded/$id; mkdir -p $d
w=/tmp/mkseed; [ -d $w ] || git clone -q /repo $w
cd $w; git checkout -q -- .; git fetch -q /repo; git reset -q --hard FETCH_HEAD
python3 - "$file" "$OLD" "$NEW" <<'P'
import sys
f,o,n=sys.argv[1:4]
s=open(f).read()
assert s.count(o)==1,("occurrences",s.count(o))
open(f,'w').write(s.replace(o,n))
P
git diff > $d/patch.diff
cp /tmp/demo.cc $d/demo.cc
cat > $d/demo.sh <<'S'
#!/bin/bash
# exits 0 if the property holds on the demonstrated input
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"; trap 'rm -r "$out"' EXIT
g++ -std=c++23 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -I include -I "$here/include" "$here/demo.cc" $EXTRA -o "$out/demo" -lfmt -lpthread || exit 3
cd "$out" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
S
python3 - "$d" "$prop" "$needs" "$what" <<'P'
import sys,json
d,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
P

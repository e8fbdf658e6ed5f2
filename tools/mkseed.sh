#!/bin/bash
# tools/mkseed.sh ID PROP "needs" "breaks": take the uncommitted diff of /repo as a planted change (and revert it); demo.cpp from /tmp/demo.cpp
D=/verif/seeded/$1; mkdir -p $D; git -C /repo diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo no diff; exit 1; }
git -C /repo checkout -- .; cp /tmp/demo.cpp $D/demo.cpp
cat > $D/demo.sh <<'E'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -O1 -w -I include "$here/demo.cpp" _build/single/libreactphysics3d.a -lpthread -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
E
python3 - "$1" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
bash /verif/tools/tryseed.sh $1

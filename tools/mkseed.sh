#!/bin/bash
# mkseed.sh <id> <property> <needs> <what_it_breaks>: record /repo's working-tree change as a planted bug and put /repo back
set -e
d=/verif/seeded/$1
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
git -C /repo checkout -- .
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
cat > "$d/demo.sh" <<'P'
#!/bin/bash
# exit 0: behaves as stated; run with cwd = the built repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -fsanitize=address -fsanitize=undefined -fno-access-control -Iinclude -Isrc -I_build -Iextern/CRCpp/inc "$d/demo.cpp" _build/libE57Format-d.a -lxerces-c -lpthread -o "$t/demo" || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 200 ./demo
P

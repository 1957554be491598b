#!/bin/bash
# tools/mkseed.sh ID PROP NEEDS BREAKS < demo.py : makes seeded/ID from the uncommitted change of /repo (undone)
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cat > $D/demo.py
cat > $D/demo.sh <<'S'
#!/bin/bash
# exit 0: the property holds; nonzero: it does not. Run with cwd /repo
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD
exec timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
S
P=$2 N=$3 B=$4 python3 -c "
import json,os
json.dump(dict(property=os.environ['P'],needs=os.environ['N'],what_it_breaks=os.environ['B']),open('$D/meta.json','w'),indent=1)"

#!/bin/bash
# mut.sh PROP file 'python-ish old' 'new': apply a textual mutation in a scratch clone of /repo and run the quick check there.
set -e
M=/tmp/mutrepo-$$; git clone -q ${SRC:-/repo} $M
python3 - "$M/$2" "$3" "$4" <<'P'
import sys
p,a,b=sys.argv[1:4]; s=open(p).read(); assert s.count(a)>=1,"pattern not found"; open(p,"w").write(s.replace(a,b,1))
P
cd /verif; VERIF_REPO=$M timeout 600 ./check $1 ${TIER:-quick} 2>&1 | grep -E "VIOLATION|OK prop|ERROR|violation:|rror:" | cut -c1-300 | head -4
rm -rf "$M"

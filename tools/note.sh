#!/bin/bash
# note.sh PID technique note : sets an entry of check_notes.json and regenerates the manifest
python3 - "$@" <<'E'
import json, sys
p='/verif/tools/check_notes.json'; d=json.load(open(p)); d[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
json.dump(d,open(p,'w'),indent=1,sort_keys=True)
E
cd /verif && python3 tools/gen_manifest.py

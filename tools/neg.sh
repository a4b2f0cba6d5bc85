#!/bin/bash
# neg.sh FILE OLD NEW MODULES PATTERN : run contracts against a scratch copy with one textual change
rm -rf /tmp/neg; mkdir /tmp/neg; cp -r /repo/src /tmp/neg/; find /tmp/neg -name '*.so' -delete
/opt/venv/bin/python - "$1" "$2" "$3" <<'E' || exit 1
import sys
p='/tmp/neg/src/jpt/'+sys.argv[1]; s=open(p).read(); assert sys.argv[2] in s; s=s.replace(sys.argv[2],sys.argv[3],1); open(p,'w').write(s)
E
SRC=/tmp/neg/src timeout 300 /opt/venv/bin/python /verif/tools/tp.py "$4" "$5" 2>&1 | cut -c1-300

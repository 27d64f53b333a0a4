#!/bin/bash
# fixed.sh PROP COMMIT WHAT...: records a repaired defect
python3 - "$@" <<'P'
import json,sys
p=sys.path and '/tmp/dev/verif'+'/known_findings.json'; k=json.load(open(p))
pr,c=sys.argv[1:3]; w=' '.join(sys.argv[3:])
k.append({'status':'fixed','property':pr,'commit':c,'what':w,'entry':'fixed: property=%s %s %s'%(pr,c,w)})
json.dump(k,open(p,'w'),indent=1)
P

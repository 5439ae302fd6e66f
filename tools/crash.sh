#!/bin/bash
# Show what the driver says on stderr when it replays a recorded session: crash.sh REPLAY.json
python3 - "$1" <<'P'
import json,os,subprocess,sys
d=json.load(open(sys.argv[1]))
open("/tmp/crash.in","w").write("".join(json.dumps(c,separators=(",",":"))+"\n" for c in d["session"]))
r=subprocess.run([os.environ.get("VERIF_BUILD","/verif/build")+f"/bin/{d['driver']}","/tmp/crash.in","/tmp/crash.out"],capture_output=True,text=True,env=dict(__import__("os").environ,VERIF_STDERR="1"))
print(r.stderr[-1500:])
ls=open("/tmp/crash.out").read().splitlines()
n=d["rejected_event_index"]
for l in ls[max(0,n-3):n+1]: print(l[:1200])
P

#!/bin/bash
# developer aid: validates the corpus texts one by one
python3 - <<'P'
import re,subprocess
s=open('/verif/src/spv_texts.inc').read()
for i,t in enumerate(re.findall(r'R"\((.*?)\)"',s,re.S)):
    r=subprocess.run('spirv-as --preserve-numeric-ids - -o - | spirv-val --target-env spv1.6 -',shell=True,capture_output=True,text=True,input=t); print(i,'ok' if r.returncode==0 else r.stderr[:400])
P

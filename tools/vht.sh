#!/bin/bash
# vht.sh ID PKG [go test args]: run a harness test directly, printing
. /opt/vp/env.sh
REPO=${REPO:-/repo}
export REPO
cd $REPO
python3 - "$1" "$2" > /tmp/vht.json <<'P'
import json,os,sys,glob
R=os.environ["REPO"]
i,p=sys.argv[1:3]
r={}
for f in glob.glob(f'/verif/harness/{i}/{p}/*_test.go'): r[f'{R}/{p}/zz_verif_'+os.path.basename(f)]=f
for f in glob.glob('/verif/harness/vh/*.go'): r[R+'/pkg/vh/'+os.path.basename(f)]=f
for d,_,fs in os.walk('/verif/harness/shared'):
    for f in fs: r[R+'/'+os.path.relpath(os.path.join(d,f),'/verif/harness/shared')]=os.path.join(d,f)
print(json.dumps({"Replace":r}))
P
mkdir -p /tmp/vhtw
VH_WORK=/tmp/vhtw VH_SECS=${VH_SECS:-5} go test -vet=off -count=1 -overlay /tmp/vht.json -run "${3:-^TestVH}" -v ./$2 2>&1 | head -${LINES_MAX:-60}
rm -rf /tmp/vhtw

#!/bin/bash
# builds the verifier when it is missing or older than its source
set -u
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
cd /verif/gvc || exit 2
if [ ! -x /verif/bin/gvc ] || [ -n "$(find . -newer /verif/bin/gvc -name '*.go' | head -1)" ]; then
	mkdir -p /verif/bin
	GOFLAGS=-mod=mod CGO_ENABLED=0 go build -o /verif/bin/gvc.new . && mv /verif/bin/gvc.new /verif/bin/gvc
fi
[ -x /verif/bin/gvc ]

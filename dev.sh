#!/bin/bash
# dev.sh PROP [flags]: run one check verbosely without writing evidence
. /opt/vp/env.sh; cd /verif/engine && go build -o bin/gosym . && p=$1; shift; exec ./bin/gosym -verif /verif -repo /repo -prop $p -v -noevidence "$@"

#!/bin/bash
# check.sh <property> [quick|thorough]   run a check
# check.sh replay <file>                 replay a violation
# check.sh setup                         build everything once
cd /verif || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
if [ -d /opt/veriftools/go1.27.3 ]; then
  export PATH=/opt/veriftools/go1.27.3/bin:$PATH
  unset GOROOT
fi
mkdir -p .build
(cd simctl && go build -o ../.build/simctl .) || exit 2
case "$1" in
  setup) exec .build/simctl build ;;
  replay) exec .build/simctl replay "$2" ;;
  *) exec .build/simctl check "$@" ;;
esac

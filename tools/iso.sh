#!/bin/bash
# iso.sh NAME CMD...: run CMD with private copies of /repo and /verif mounted in their places (own mount namespace)
n=/tmp/iso.$1; shift; mkdir -p $n; rm -rf $n/repo $n/verif; cp -a /repo $n/repo; mkdir $n/verif; cp -a /verif/. $n/verif/
unshare -m bash -c "mount --bind $n/repo /repo && mount --bind $n/verif /verif && cd /verif && $*"; rc=$?; rm -rf $n; exit $rc

#!/bin/bash
# usage: withpatch.sh SEEDID cmd...   runs cmd with PV_REPO_SRC pointing at a patched scratch copy
t=$(mktemp -d); cp -a /repo/src $t/src; (cd $t && git init -q . && git apply /verif/seeded/$1/patch.diff); shift
PV_REPO_SRC=$t/src "$@"; rm -rf $t

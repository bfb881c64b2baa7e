#!/bin/sh
# newseed.sh ID: refreshes the kit of /verif/seeded/ID and runs its demo on the unchanged tree and, in a scratch copy, with the patch; then the build and tests there.
V=/verif/seeded/$1; W=/tmp/seedwt-$1
[ -f $V/NOKIT ] || { mkdir -p $V/kit; cp /verif/lf/lfgen.c /verif/lf/lfgen_fed.inc /verif/lf/lfspec.h /verif/lf/lfspec.cpp /verif/tools/demokit/kit.h /verif/tools/demokit/kit.cpp $V/kit/; cp /verif/tools/demokit/mk.sh $V/; }
rm -rf "$W"; cp -a /repo "$W"
(cd $W && sh $V/demo.sh >/tmp/seed-$1.clean 2>&1; echo "clean: $?")
(cd $W && git apply $V/patch.diff && (sh $V/demo.sh >/tmp/seed-$1.bug 2>&1; echo "with the patch: $?"; tail -2 /tmp/seed-$1.bug))
rm -rf "$W"

#!/bin/bash
# tools/tlc.sh MODULE CFG [args]
cd /verif/specs; mkdir -p /verif/build/tmp
m=$(mktemp -d /verif/build/tmp/t-XXXX)
java -XX:+UseParallelGC -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers ${WORKERS:-4} -noGenerateSpecTE -metadir $m -config $2.cfg "${@:3}" $1.tla
r=$?; rm -rf $m; exit $r

#!/bin/bash
# development helper: tlc.sh Module [tlc args]
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p /tmp/cls; javac -cp /opt/veriftools/tla/tla2tools.jar -d /tmp/cls $here/java/*.java || exit 2
m=$1; shift
exec java -Xss256m -XX:+UseParallelGC -DTLA-Library=$here/lib:$here -cp /tmp/cls:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir /tmp/tlcm.$$ -config $m.cfg "$@" $m.tla

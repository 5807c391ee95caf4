#!/bin/bash
# tlc.sh MODULE CFG [args]: runs TLC in a scratch copy of /verif/spec
d=$(mktemp -d); cp -r /verif/spec $d/w; cd $d/w
java -Xss16m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir $d/m -workers ${W:-auto} -deadlock -config $2 ${@:3} $1.tla 2>&1 | grep -v -E '^(Parsing file|Semantic proc)' | cut -c1-${CUT:-400}
rm -rf "$d"

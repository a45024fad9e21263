#!/bin/sh
# run TLC on a config by hand: t.sh MODULE [CFG]
cd /verif/spec && java -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -deadlock -workers 8 -metadir /tmp/m1 -config ${2:-$1}.cfg $1.tla | grep -v '^Parsing\|^Semantic\|^Linting\|^Computed'

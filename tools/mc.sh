#!/bin/bash
# run one design model by hand: tools/mc.sh MODULE [quick|thorough] [workers]
cd "$(dirname "$0")/../spec"
d=$(mktemp -d)
time env STIM=$d/stim TIER=${2:-quick} timeout 900 java -Xmx6g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -deadlock -noGenerateSpecTE -workers ${3:-4} -metadir $d/m -config $1.cfg $1.tla | tail -${4:-12}
[ -f $d/stim ] && wc -l $d/stim && head -1 $d/stim
rm -rf "$d"

#!/bin/sh
# ./mc.sh MODEL[__variant]: check one model by hand
cd "$(dirname "$0")" || exit 2
m=$1; t=${m%%__*}; d=$(mktemp -d); java -Xmx8g -Xss64m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir "$d" -noGenerateSpecTE -workers 8 -config "$m.cfg" "$t.tla" | grep -v -e '^Parsing' -e '^Semantic' -e '^Linting'
rm -r "$d"

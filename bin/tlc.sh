#!/bin/bash
# tlc.sh [tlc args]: TLC with the community modules and the ByteNum accelerators.
here=$(cd "$(dirname "$0")/.." && pwd)
T=/opt/veriftools/tla
cls=$here/.build/classes
if [ ! -f "$cls/VerifOverrides.class" ] || [ "$here/java/VerifOverrides.java" -nt "$cls/VerifOverrides.class" ]; then
  mkdir -p "$cls" && javac -nowarn -cp $T/tla2tools.jar:$T/CommunityModules-deps.jar -d "$cls" "$here/java/VerifOverrides.java" || exit 2
fi
exec java -XX:+UseParallelGC ${TLC_JAVA_OPTS:--Xss64m -Xmx8g} -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VerifOverrides \
  -cp "$cls:$T/tla2tools.jar:$T/CommunityModules-deps.jar" tlc2.TLC "$@"

#!/bin/bash
# tlc.sh CLASSES METADIR ARGS...   run TLC with the BigNat overrides
set -u
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
C=$1; M=$2; shift 2
exec java ${TLC_JAVA_OPTS:--Xss16m -Xmx6g} -XX:+UseParallelGC \
  -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:aesi.BigNatOverrides \
  -cp "$J:$C" tlc2.TLC -metadir "$M" -noGenerateSpecTE "$@"

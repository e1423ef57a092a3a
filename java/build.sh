#!/bin/bash
# build.sh SRC REPO OUT: compiles the Java part of the simulator and the contracts
set -e
S=$1 R=$2 O=$3
X="--add-exports java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED"
mkdir -p "$O/proc" "$O/app" "$O/contracts" "$O/META"
javac -nowarn -proc:none -d "$O/proc" "$S/proc/Proc.java"
find "$S/api" "$S/sim" "$R/javascore/lib/src/main/java" "$R/javascore/score-util/src/main/java" -name '*.java' > "$O/app.list"
javac -nowarn -Xlint:none $X -parameters -processorpath "$O/proc" -processor Proc -d "$O/app" @"$O/app.list"
find "$R/javascore/bmc/src/main/java" "$R/javascore/bmv/bridge/src/main/java" "$R/javascore/bmv/btpblock/src/main/java" "$R/javascore/xcall/src/main/java" -name '*.java' > "$O/contracts.list"
javac -nowarn -Xlint:none -cp "$O/app" -processorpath "$O/proc" -processor Proc -d "$O/contracts" @"$O/contracts.list"

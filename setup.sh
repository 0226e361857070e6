#!/bin/bash
# Compiles the BigInteger evaluation of spec/Rat.tla into build/cls (checks do it themselves when it is missing).
cd "$(dirname "$0")" || exit 2
mkdir -p build/cls && javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d build/cls java/tlc2/module/Rat.java

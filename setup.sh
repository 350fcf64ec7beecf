#!/bin/bash
# builds the Java half of the TLA+ module Rat (exact rationals) into /verif/build
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -d build lib/Rat.java

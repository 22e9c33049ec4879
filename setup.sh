#!/bin/bash
# Builds what the checks need from the committed files, offline.
set -e
cd "$(dirname "$0")"
JARS=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
mkdir -p build/classes evidence
javac -cp "$JARS" -d build/classes java/RHash.java
/opt/venv/bin/python -B -c 'print("python ok")'

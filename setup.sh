#!/bin/bash
# Builds what the checks need from the committed files of /verif (offline). --ensure: only if missing.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
exec 9>build/.lock; flock 9
if [ ! -x build/exporter ] || [ exporter/exporter.cpp -nt build/exporter ]; then bash exporter/build.sh "$PWD/build/exporter"; fi

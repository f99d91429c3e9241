#!/bin/bash
# Nothing is kept between runs: every check compiles java/Real.java into its own scratch directory.  This only checks the tools.
set -e
cd "$(dirname "$0")"
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$D" java/*.java
/opt/venv/bin/python -c 'import jax'
echo ready

#!/bin/bash
# Nothing is installed: checks that the tools the checks use are there.
set -e
cd "$(dirname "$0")"
java -version 2>/dev/null
test -r /opt/veriftools/tla/tla2tools.jar
test -r /opt/veriftools/tla/CommunityModules-deps.jar
/opt/venv/bin/python -c "import torch, numpy"
/usr/bin/python3 -c "import json"
mkdir -p evidence

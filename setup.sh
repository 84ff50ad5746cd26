#!/bin/bash
# Nothing to build: the checks compile /repo themselves. Confirms that the tools are there.
set -e
cd "$(dirname "$0")"
python3-vt -c "import z3; print('z3', z3.get_version_string())"
clang-18 --version | head -1
gcc --version | head -1
python3 -m json.tool MANIFEST.json > /dev/null
mkdir -p evidence

#!/bin/bash
# nothing to build: check that the interpreter, z3 and clang are there
. /opt/vp/harness/env.sh
cd "$(dirname "$0")" && /opt/venv/bin/python -c "from wxv import solver; import z3; print('z3', z3.get_version_string())" && clang --version | head -1

#!/bin/bash
# Nothing to build ahead of time: each check builds its own copy of /repo.
# Verify that the tools the checks need are present.
set -e
/opt/venv/bin/python -c 'import sys, setuptools, regex, chardet, pandas, wilderness; sys.exit(0)'
command -v gcc >/dev/null
echo "setup ok"

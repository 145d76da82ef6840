#!/bin/bash
# Nothing to install: the harnesses are compiled by each check from committed files and /repo's tree.
set -e
cd "$(dirname "$0")"
python3 -c "import spec, run; print(len(spec.CHECKS), 'checks')"
command -v gcc >/dev/null

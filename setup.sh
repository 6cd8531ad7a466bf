#!/bin/bash
# Nothing to build: checks the tools the harness needs and that the target imports.
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:. python3-vt -W ignore -c "import hypothesis, mpmath, numpy, pyorb, harness.core"

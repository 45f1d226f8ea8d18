#!/bin/bash
# compiles the number overrides used by TLC (checks also do this on demand)
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c "import sys; sys.path.insert(0, 'harness'); import rdv; print(rdv.classes())"

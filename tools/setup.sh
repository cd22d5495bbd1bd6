#!/bin/sh
# nothing to build: make sure the toolchain the checks rely on is there
set -e
cd "$(dirname "$0")/.."
quint --version
/opt/venv/bin/python -c "import sys; print(sys.version)"
quint typecheck spec/contract.qnt
mkdir -p evidence

#!/bin/bash
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/mllm-venv/bin/python -c "import z3, torch; print('z3', z3.get_version_string(), 'torch', torch.__version__)"

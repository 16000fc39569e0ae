#!/bin/bash
# nothing to build: the machinery is Python run by the repository's own interpreter
cd "$(dirname "$0")" && /opt/venv/bin/python -c "import sys; sys.dont_write_bytecode=True; import mc.lang, mc.gen, mc.render" && mkdir -p out evidence

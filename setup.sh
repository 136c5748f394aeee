#!/bin/sh
# Nothing has to be compiled: parse the specification, and make sure the code under test can be imported.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY TraceGroCo.tla > /dev/null || exit 1
cd .. && KERAS_BACKEND=jax JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "import groco.layers"

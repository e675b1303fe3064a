#!/bin/sh
# Nothing is compiled: check that the interpreter and the loader work.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -W ignore -B -c "
import sys; sys.path.insert(0, '.')
from dst import py2load
py2load.install('/repo')
import cgpm.crosscat.engine
print('loader ok')"

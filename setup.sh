#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree directly.
/opt/venv/bin/python -c 'import numpy, psutil, sys; sys.exit(0)'

#!/bin/sh
# Nothing to build: the checks import /repo directly.  Verify that the interpreter and libraries are usable.
exec /opt/pypyvenv/bin/python -c "import numpy, scipy, hypothesis"

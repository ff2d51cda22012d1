#!/bin/bash
# Nothing to compile: verify that the tools and the code under test import.
cd "$(dirname "$0")" || exit 3
exec /opt/venv/bin/python -B -c "
from lib import boot
boot.load_tatc()
import hypothesis, tatc
print('ok', hypothesis.__version__, tatc.__file__)
"

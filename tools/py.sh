#!/bin/sh
# Run a Python program against the built code of /repo's working tree (variant in VARIANT, default prod).
cd /verif; P=$(python3-vt -c "
import sys; sys.path.insert(0,'/verif')
from lib import build; print(build.build('${VARIANT:-prod}'))")
cd /tmp; PYTHONPATH=$P:/verif exec python3-vt "$@"

#!/bin/bash
# run in the repository after it is built
D=$(cd "$(dirname "$0")" && pwd)
exec /opt/veriftools/pyvenv/bin/python3 -B "$D/demo.py"

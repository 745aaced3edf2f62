#!/bin/sh
# rt.sh p01 [args]
p=$1; shift
cd /verif; PYTHONDONTWRITEBYTECODE=1 VERIF_REPO=${VERIF_REPO:-/repo} PYTHONPATH=${VERIF_REPO:-/repo}:/verif timeout 600 /opt/venv/bin/python -W ignore rt/$p.py "$@" 2>/tmp/rt.err | cut -c1-700; tail -c 600 /tmp/rt.err

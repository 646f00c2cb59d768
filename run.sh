#!/bin/bash
# usage: run.sh MODULE [quick|thorough] [jobs...]: run one check verbosely, short output
cd "$(dirname "$0")"
PV_VERBOSE=1 timeout 7200 /opt/venv/bin/python -B -m vlib.runner "$@" 2>&1 | cut -c1-${COLS:-330} | head -${LINES_MAX:-30}

#!/bin/bash
# usage: run.sh ID [--tier quick|thorough]     or     run.sh --replay FILE
cd "$(dirname "$0")" || exit 2
exec /usr/bin/python3 -m sim.run "$@"

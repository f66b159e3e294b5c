#!/bin/bash
exec "$(dirname "$0")/run.sh" replay "$(readlink -f "$1")"

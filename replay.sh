#!/bin/sh
# replay.sh FILE: rebuild and run one recorded case; exit 1 while it still fails
exec "$(dirname "$0")/check" --replay "$1"

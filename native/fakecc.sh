#!/bin/sh
# Stands in for cc: records how it was called and what the object file looked like, then does what the name of the file $SKV_CC says
for a in "$@"; do printf '%s\0' "$a"; done > "$SKV_CCLOG"
case "$SKV_CCDO" in
fail) exit 3 ;;
*) exec /usr/bin/cc "$@" ;;
esac

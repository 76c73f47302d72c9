#!/bin/sh
# Stand-in linker: the symbolic build only needs rlibs (bitcode); cdylib outputs are left empty.
while [ $# -gt 0 ]; do
  case "$1" in
    -o) : > "$2"; shift ;;
    @*) f="${1#@}"; o=$(grep -A1 -x -- '-o' "$f" | tail -1); [ -n "$o" ] && : > "$o" ;;
  esac
  shift
done
exit 0

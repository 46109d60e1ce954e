#!/bin/sh
# gendeps.sh GENDIR SIMDIR: let the simulator module SIMDIR (a scratch copy)
# import what the generator's module requires.
set -e
sed -n '/^require[ \t]*(/,/^)/p; /^require[ \t]*[^( ]/p; /^replace/p' "$1/go.mod" >> "$2/go.mod"
[ ! -f "$1/go.sum" ] || cat "$1/go.sum" >> "$2/go.sum"

#!/bin/bash
# newseed.sh NAME KIND [--release]: lays the demonstration kit into seeded/NAME
set -eu
cd "$(dirname "$0")/.."
d=seeded/$1; mkdir -p "$d"
t=$(mktemp -d)
mkdir "$t/kit"; cp tools/kit/$2.toml tools/kit/$2.lock "$t/kit/"
mkdir "$t/standins"
for s in $(grep -o 'standins/[a-z-]*' tools/kit/$2.toml | sort -u | cut -d/ -f2); do cp -r standins/$s "$t/standins/"; [ -d standins/$s-derive ] && cp -r standins/$s-derive "$t/standins/"; done
tar -C "$t" --sort=name --mtime=2024-01-01 --owner=0 --group=0 -cf - kit standins | gzip -n >"$d/kit.tar.gz"
rm -rf "$t"
sed "s#@KIND@#$2#; s#@MODE@#${3:-}#" tools/kit/demo.sh >"$d/demo.sh"; chmod +x "$d/demo.sh"

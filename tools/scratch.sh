#!/bin/bash
# usage: scratch.sh DIR            makes DIR/repo (copy of /repo) and DIR/verif (copy of the machinery, aimed at DIR/repo)
# then:  VH_REPO=DIR/repo DIR/verif/check.sh ID ...     Remove DIR afterwards.
set -e
d=$1; here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$d"
[ -d "$d/repo" ] || git clone -q /repo "$d/repo"
cp /repo/Cargo.lock "$d/repo/" 2>/dev/null || true
mkdir -p "$d/verif"
tar -C "$here" --exclude=./target --exclude=./.git --exclude=./replays --exclude=./evidence --exclude=./seeded -cf - . | tar -C "$d/verif" -xf -
sed -i "s|path = \"/repo\"|path = \"$d/repo\"|" "$d/verif/harness/Cargo.toml"

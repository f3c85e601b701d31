#!/bin/bash
# Miri's driver, which cargo-miri calls as a compiler
exec "$(dirname "$0")/without-unstable.sh" "$(rustc --print sysroot)/bin/miri" "$@"

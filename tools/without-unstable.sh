#!/bin/bash
# A compiler wrapper that builds vsimd without its feature `unstable`, which current compilers no longer accept;
# `parallel`, which asks for it, does not need it.
f=0
[[ " $* " == *" --crate-name vsimd "* ]] && f=1
args=()
for a in "$@"; do
  if [ $f = 1 ] && [ "$a" = 'feature="unstable"' ] && [ "${args[-1]}" = --cfg ]; then
    unset 'args[-1]'
  else
    args+=("$a")
  fi
done
exec "${args[@]}"

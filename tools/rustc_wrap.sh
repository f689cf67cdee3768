#!/bin/bash
# usage: wrap.sh rustc args...
rc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
if [ "$name" = embedded_audio_tools ] || [ "$name" = micromath ] || [ "$name" = tock_registers ]; then
  args=(); skip=0
  for a in "$@"; do
    if [ "$a" = "force:kani" ] ; then unset 'args[-1]'; continue; fi
    args+=("$a")
  done
  exec "$rc" "${args[@]}"
fi
exec "$rc" "$@"

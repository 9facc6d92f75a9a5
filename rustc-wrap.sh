#!/bin/bash
# RUSTC_WRAPPER: vpin is declared as cdylib+rlib; only the rlib is needed here.
args=()
prev=""
isv=0
for a in "$@"; do [ "$prev" = "--crate-name" ] && [ "$a" = vpin ] && isv=1; prev="$a"; done
if [ $isv = 1 ]; then
  skip=0
  n=("$@"); i=0
  while [ $i -lt ${#n[@]} ]; do
    if [ "${n[$i]}" = "--crate-type" ] && [ "${n[$((i+1))]}" = "cdylib" ]; then i=$((i+2)); continue; fi
    args+=("${n[$i]}"); i=$((i+1))
  done
  "${args[@]}" || exit $?
  # cargo looks for the cdylib when it decides whether a rebuild is needed
  prev=""
  for a in "${args[@]}"; do [ "$prev" = "--out-dir" ] && : > "$a/libvpin.so"; prev="$a"; done
  exit 0
fi
exec "$@"

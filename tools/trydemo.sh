#!/bin/bash
# trydemo.sh SEED...: run a seed's demo on the unchanged tree and with the patch, in a scratch clone
for s in "$@"; do
  T=/tmp/td.$s; rm -rf "$T"; git clone -q -s /repo "$T"; cp -r /verif/seeded/$s "/tmp/td.$s.seed"
  (cd "$T" && bash "/tmp/td.$s.seed/demo.sh" > /tmp/td.$s.clean 2>&1); a=$?
  git -C "$T" apply "/verif/seeded/$s/patch.diff" || echo "patch does not apply"
  (cd "$T" && bash "/tmp/td.$s.seed/demo.sh" > /tmp/td.$s.bug 2>&1); b=$?
  echo "$s clean=$a bug=$b | $(tail -1 /tmp/td.$s.clean | cut -c1-150) | $(grep -v 'RUST_BACKTRACE' /tmp/td.$s.bug | tail -2 | tr '\n' ' ' | cut -c1-250)"
  rm -rf "$T" "/tmp/td.$s.seed"
done

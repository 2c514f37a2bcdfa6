#!/bin/bash
# Builds /repo's working tree in its git-ignored _build folder, as /opt/vp/build.sh does, but without installing the
# Python package (the checks use the Python tools from the sources), so that nothing is written under /opt/vp.
export PYTHONDONTWRITEBYTECODE=1
. /opt/vp/env.sh
set -e -o pipefail
sync_stage
cd "$STAGE"
inputs=$(grep -E '(^|/)(configure\.ac|autogen\.sh|VERSION|[^/]*\.am|[^/]*\.m4)$' "$REPO/_build/manifest" |
  while IFS= read -r f; do sha256sum "$f"; done | sha256sum)
if [ "$(cat "$REPO/_build/configured" 2>/dev/null)" != "$inputs" ] || [ ! -f Makefile ]; then
  cd "$REPO"
  rm -rf /repo/_build/src /repo/_build/inst /repo/_build/configured /repo/_build/manifest
  sync_stage
  cd "$STAGE"
  mkdir -p src/backends/prism
  ./autogen.sh
  ./configure --prefix="$INST" --with-llvm="$LLVM" --with-flang="$LLVM/bin" --without-prism
  echo "$inputs" > "$REPO/_build/configured"
fi
I="INSTALL=/usr/bin/install -C"
rm -f src/vfcwrapper/vfcwrapper.c
make -s -C src/interflop-stdlib -j8 "$I" install
make -s -j8
make -s "$I" PYTHON=true install

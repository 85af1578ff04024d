#!/bin/bash
# Brings /repo/_build (ignored by git) up to date with /repo's working tree: the same steps as /opt/vp/build.sh,
# with the compiler cache read-only, so that nothing under /opt/vp is written.
set -eo pipefail
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
W=${VERIF_WORK:?}
mkdir -p "$W/cctmp"
export CCACHE_DIR=/opt/vp/ccache CCACHE_READONLY=1 CCACHE_NOSTATS=1 CCACHE_TEMPDIR="$W/cctmp" CCACHE_SLOPPINESS=time_macros,include_file_mtime,include_file_ctime
unset PYTHONPATH
B=/repo/_build
mkdir -p $B
exec 9>"$B/.verif.lock"
flock 9
list=$(cd /repo && find core lib pkg gui py scripts/checks-and-tests/checks examples/test/performance -type f ! -name '*.pyc' | LC_ALL=C sort; sha256sum /opt/vp/configure.sh)
if [ ! -f $B/build.ninja ] || [ ! -f $B/.ok ] || [ "$list" != "$(cat $B/.ok)" ]; then
  rm -f $B/.ok
  rm -rf $B/chunks.old; mkdir $B/chunks.old
  mv $B/core.*.cpp $B/pkg.*.cpp $B/lib.*.cpp $B/chunks.old/ 2>/dev/null || true
  /opt/vp/configure.sh
  for f in $B/chunks.old/*.cpp; do
    if cmp -s "$f" "$B/$(basename "$f")"; then mv "$f" $B/; fi
  done
  printf '%s\n' "$list" > $B/.ok
fi
ninja -C $B
rm -rf $B/inst
cmake --install $B > $B/install.log
/usr/bin/python3 /opt/vp/py3compat/convert.py $B/py3cache $B/inst/lib $B/inst/bin/yade $B/inst/bin/yade-batch
echo "build ok"

#!/bin/bash
# build_tree.sh DEST [ir|native]: builds /repo's current working tree in a private copy, DEST.
#   ir:     ./configure --disable-regs; leaves bitcode (*.o.bc) and mapper assembly (*.o.gs) beside the objects
#   native: the default configuration (global machine registers)
# The procedure is that of /opt/vp/build.sh: stale .wam files are translated again.
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8 HOME=${HOME:-/root}
unset CFLAGS LDFLAGS MAKEFLAGS PL_PATH CDPATH
export CC=gcc
W=$1 MODE=${2:-ir}
R=${GSYM_REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
J=$(nproc); [ "$J" -gt 8 ] && J=8
mkdir -p "$W" || exit 1
cd $R || exit 1
git -c safe.directory='*' ls-files -z -co --exclude-standard -- src examples VERSION COPYING |
    while IFS= read -r -d '' f; do [ -f "$f" ] && printf '%s\0' "$f"; done >"$W/.files0"
rsync -a --from0 --files-from="$W/.files0" $R/ "$W/" || exit 1
find "$W" -type f -exec touch -h -d '2 hours ago' {} +
find "$W/src" -name '*.wam' -exec touch -d '1 hour ago' {} +
chmod a+x "$W/src/configure" 2>/dev/null
stale=()
for pl in "$W"/src/Pl2Wam/*.pl "$W"/src/BipsPl/*.pl; do
    d=${pl%/*} n=$(basename "$pl" .pl)
    if [ -f "$d/$n.wam" ]; then
        h=$(grep -m1 '^% hash:' "$d/$n.wam" | awk '{print $3}')
        [ "$h" = "$(sha1sum <"$pl" | cut -d' ' -f1)" ] || stale+=("$d/$n")
    elif [ "$n" != t ] && grep '^[A-Z_]*OBJS *=\|^ \|^PLS' "$d/Makefile.in" | grep -q "\b$n\(@OBJ_SUFFIX@\|\.pl\b\)"; then
        stale+=("$d/$n")
    fi
done
cd "$W/src" || exit 1
CONF=(); [ "$MODE" = ir ] && CONF=(--disable-regs)
wrapped() {
    if [ "$MODE" = ir ]; then
        GSYM_IR=1 GSYM_CLANG=/usr/bin/clang-18 PATH=$HERE/wrap:$PATH "$@"
    else
        "$@"
    fi
}
make_all() {
    wrapped timeout 60 make -C EnginePl config && wrapped timeout 60 make -C EnginePl top_comp &&
        wrapped timeout 300 make -j"$J" all
}
regen() {
    ( . ./SETVARS; cd "$1" || exit 1
      for s in "${stale[@]}"; do
          [ "${s%/*}" = "$W/src/$1" ] || continue
          rm -f "$s.wam"
          timeout 60 make "$(basename "$s").wam" && [ -s "$s.wam" ] || exit 1
      done )
}
( set -e
  ./configure "${CONF[@]}"
  if [ ${#stale[@]} -eq 0 ]; then
      make_all
  else
      echo "stale: ${stale[*]}"
      cp -p /opt/vp/seed/pl2wam Pl2Wam/pl2wam
      touch -d '3 hours ago' Pl2Wam/pl2wam
      regen Pl2Wam
      regen BipsPl
      rm -f Pl2Wam/pl2wam
      make_all
      regen BipsPl
      cp Pl2Wam/pl2wam Pl2Wam/pl2wam0
      regen Pl2Wam
      make -C Fd2C clean; make -C EngineFD clean; make -C BipsFD clean
      make_all
  fi
  test -x TopComp/gplc -a -x Pl2Wam/pl2wam -a -s BipsFD/libbips_fd.a
) >"$W/build.log" 2>&1
rc=$?
[ $rc -eq 0 ] || { tail -30 "$W/build.log"; echo "build_tree: FAILED"; }
exit $rc

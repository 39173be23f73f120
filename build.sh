#!/bin/bash
# Builds the simulator from /repo's working tree into /verif/build (ignored by git).
# Objects are kept under the hash of everything they are made from, so a change of
# /repo or of the simulator always leads to a new build.
# usage: build.sh [-q] universe...
set -u
cd "$(dirname "$0")" || exit 2
HERE=$PWD; REPO=${REPO:-/repo}
B=${SIM_BUILD:-$HERE/build}; mkdir -p "$B/obj" || exit 2
UNI=${*:-d s f l}
CXX=g++
hsim=$(cat sim/*.h sim/rt.cpp sim/gen.cpp sim/plan.cpp sim/main.cpp sim/chk.cpp sim/*.inc | sha1sum | cut -c1-16)
hcat=$(cat "$REPO"/homog2d.hpp sim/api.h sim/cat* build.sh | sha1sum | cut -c1-16)
fail="$B/fail.$$"; : > "$fail"
comp() # object, source, flags...
{
	local o=$1 s=$2; shift 2
	[ -f "$o" ] && return
	if ! $CXX -std=c++17 -O1 "$@" -c "$s" -o "$o.$$" > "$o.log" 2>&1; then { echo "build of $s failed:"; grep -m5 -E "error|Error" "$o.log"; tail -3 "$o.log"; } >> "$fail"; rm -f "$o.$$"
	else mv -f "$o.$$" "$o"; fi
}
objs=""
case " $UNI " in *" d "*) UNI="d2 $UNI";; esac   # a second source file of the program of universe d; first in the link order
for u in $UNI; do
	o="$B/obj/cat_$u.$hcat.o"; objs="$objs $o"
	comp "$o" sim/cat_$u.cpp -fsanitize=thread -D_GLIBCXX_ASSERTIONS -I"$REPO" -Isim -I/usr/include/eigen3 -I/usr/include/opencv4 &
done
for f in main gen plan chk; do o="$B/obj/$f.$hsim.o"; objs="$objs $o"; comp "$o" sim/$f.cpp & done
o="$B/obj/rt.$hsim.o"; objs="$objs $o"; comp "$o" sim/rt.cpp -fno-builtin -fno-tree-loop-distribute-patterns &
wait
if [ -s "$fail" ]; then cat "$fail" >&2; rm -f "$fail"; exit 2; fi
rm -f "$fail"
name=$(echo $UNI | tr -d ' ')
exe="$B/simcheck.$name.$hsim.$hcat"
lib="-ltinyxml2"; case " $UNI " in *" cv "*) lib="$lib -lopencv_imgproc -lopencv_core";; esac
if [ ! -x "$exe" ]; then
	$CXX -no-pie -o "$exe.$$" $objs $lib -lpthread -ldl > "$B/link.log" 2>&1 || { tail -5 "$B/link.log" >&2; exit 2; }
	mv -f "$exe.$$" "$exe"
fi
# keep the cache small
find "$B" -type f -mmin +600 -delete 2>/dev/null
echo "$exe"

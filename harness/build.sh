#!/bin/bash
# build.sh [--fast] TARGET...: (re)builds harness targets from /repo's working tree, with address+undefined
# sanitizers, or (--fast) optimised and without them, for the checks that compare results over many cases.
# Output: /verif/.build or /verif/.fast (ignored by git); objects are cached by content in /verif/.ccache.
set -e
export CC=gcc CXX=g++ LC_ALL=C.UTF-8
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
FLAGS="-O1 -g1 -DNDEBUG -DHLASM_VERIF -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -Wno-error -w"
B=$V/.build
if [ "$1" = --fast ]; then shift; B=$V/.fast; FLAGS="-O1 -g1 -DNDEBUG -DHLASM_VERIF -D_GLIBCXX_ASSERTIONS -Wno-error -w"; fi
B=${VERIF_BUILD:-$B}
D=/opt/vp/deps
export PATH=$V/harness/bin:$PATH
export CCACHE_DIR=${VERIF_CCACHE:-$V/.ccache} CCACHE_MAXSIZE=4G CCACHE_NOHASHDIR=1 CCACHE_BASEDIR=$REPO CCACHE_SLOPPINESS=time_macros,pch_defines,include_file_mtime,include_file_ctime
mkdir -p "$B"
LAUNCH=
command -v ccache >/dev/null && LAUNCH="-DX=1 -DCMAKE_CXX_COMPILER_LAUNCHER=ccache -DCMAKE_C_COMPILER_LAUNCHER=ccache"
exec 9>"$B/.lock"; flock 9
if [ ! -f "$B/build.ninja" ]; then
	rm -f "$B/CMakeCache.txt"
	rm -rf "$B/antlr4cpp"; cp -a "$D/antlr4cpp" "$B/antlr4cpp" # its jar is rebuilt in place: never in /opt/vp
	cmake -S "$REPO" -B "$B" -G Ninja -DCMAKE_BUILD_TYPE=Verif -DBUILD_TESTING=${VERIF_TESTING:-OFF} $LAUNCH \
		-DCMAKE_CXX_FLAGS="${VERIF_FLAGS:-$FLAGS}" \
		-DDISCOVER_TESTS=Off -DBUILD_VSIX=Off \
		-DFETCHCONTENT_FULLY_DISCONNECTED=ON \
		-DFETCHCONTENT_SOURCE_DIR_ANTLR4CPP=$B/antlr4cpp \
		-DFETCHCONTENT_SOURCE_DIR_JSON=$D/json \
		-DFETCHCONTENT_SOURCE_DIR_URI_EXT=$V/harness/uri \
		-DFETCHCONTENT_SOURCE_DIR_BOOST_EXT=$D/asio \
		-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest \
		-DCMAKE_PROJECT_HlasmServer_INCLUDE=$V/harness/after_project.cmake || { rm -f "$B/build.ninja"; exit 3; }
fi
# A source whose content changed must be newer than what was built from its former content, whatever its time stamp says.
H=$B/.hashes
(cd "$REPO" && find parser_library/include parser_library/src parser_library/CMakeLists.txt language_server utils CMakeLists.txt -type f -not -path '*/test/*' -print0 | LC_ALL=C sort -z | xargs -0 sha1sum) > "$H.new"
if [ -f "$H" ]; then
	LC_ALL=C comm -13 <(LC_ALL=C sort "$H") <(LC_ALL=C sort "$H.new") | cut -c43- | while IFS= read -r f; do
		[ "$REPO/$f" -nt "$H" ] || touch "$REPO/$f"
	done
fi
ninja -C "$B" -j8 "$@"
mv "$H.new" "$H"

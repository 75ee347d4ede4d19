#!/bin/bash
# Check driver: bash run.sh <property> [quick|thorough] | bash run.sh setup
# Builds the harness of the property against /repo's working tree and runs its monitors.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.81.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true SKIP_WASM_BUILD=1 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$V/target
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
mkdir -p "$V/target" "$V/evidence" "$V/replays"

# property -> workspace directory, package (= binary)
lookup() { awk -v p="$1" '$1==p{print $2, $3}' "$V/harness.map"; }

# cargo decides by mtime; force a rebuild of a repository crate whose content differs from
# what was last built.
refresh() { # workspace
	local ws=$1 pkg dir h stamp
	while read -r w pkg dir; do
		[ "$w" = "$ws" ] || continue
		h=$(cd /repo && find "$dir" -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.json' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
		stamp=$V/target/.stamp-$ws-$pkg
		if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
			(cd "$V/$ws" && cargo clean --offline --release -p "$pkg" >/dev/null 2>&1)
			echo "$h" > "$stamp"
		fi
	done < "$V/repo-crates.map"
}

build() { # workspace package
	local log=$V/target/build-$2.log
	refresh "$1"
	if ! (cd "$V/$1" && cargo build --offline --locked --release -p "$2") >"$log" 2>&1; then
		echo "build of $2 failed:" >&2
		tail -60 "$log" >&2
		return 1
	fi
}

if [ "$1" = setup ]; then
	rc=0
	for wp in $(awk '{print $2":"$3}' "$V/harness.map" | sort -u); do
		build "${wp%%:*}" "${wp##*:}" || rc=1
	done
	[ $rc = 0 ] || echo "some harness did not build; its checks will say so" >&2
	exit 0
fi

P=$1
TIER=${2:-${VERIF_TIER:-quick}}
read -r WS BIN < <(lookup "$P")
[ -n "$BIN" ] || { echo "unknown property $P" >&2; exit 2; }
T0=$(date +%s.%N)
build "$WS" "$BIN" || exit 2
T1=$(date +%s.%N)
"$V/target/release/$BIN" --prop "$P" --tier "$TIER" --seed "${VERIF_SEED:-1}" --verif "$V" \
	--build-s "$(echo "$T1 $T0" | awk '{print $1-$2}')" "${@:3}"
rc=$?
case $rc in 0|1) exit $rc;; *) exit 2;; esac

#!/bin/bash
# run.sh setup            build the simulator, the shim and the program
# run.sh check <property> search for violations (VERIF_SEED, VERIF_TIER=quick|thorough)
# run.sh replay <file>    run one replay file again
# Extra arguments of 'check' go to the simulator (--cases N, --wall S, --workers N).
V=$(cd "$(dirname "$0")" && pwd) || exit 2
REPO=${PEMV_REPO:-/repo}
OUT=${PEMV_BUILD:-$V/build}
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export RUSTFLAGS='--check-cfg=cfg(tarpaulin) --check-cfg=cfg(tarpaulin_include)'
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR MAN_PAGE_OUT_DIR COMPLETION_SCRIPTS_OUT_DIR LD_PRELOAD
mkdir -p "$OUT" || exit 2
fail() { echo "run.sh: $*" >&2; exit 2; }
quiet() { "$@" >"$OUT/log.$$" 2>&1 || { tail -40 "$OUT/log.$$" >&2; rm -f "$OUT/log.$$"; return 1; }; rm -f "$OUT/log.$$"; }
build_sim() {
	(cd "$V/sim" && quiet cargo build --release --locked --offline --target-dir "$OUT/sim") || fail "the simulator does not build"
	if [ ! "$OUT/shim.so" -nt "$V/sim/shim.c" ]; then
		quiet gcc -O2 -g -fPIC -shared -w -fno-stack-protector -fcf-protection=none -o "$OUT/shim.$$.so" "$V/sim/shim.c" -ldl || fail "the shim does not build"
		mv "$OUT/shim.$$.so" "$OUT/shim.so"
	fi
	SIM=$OUT/sim/release/pemvsim
}
# the program as /repo's working tree has it now (cargo goes by mtime: make it look again)
pemv() { # profile option, directory
	(
		cd "$REPO" || exit 1
		touch -c src/main.rs build.rs
		export CARGO_PROFILE_DEV_BUILD_OVERRIDE_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
		quiet cargo build $1 --locked --offline --target-dir "$OUT/pemv"
	) || fail "pemv does not build"
}
# the same with optimisations and without overflow checks, but without the slow whole-program link step
optimised() {
	(
		cd "$REPO" || exit 1
		touch -c src/main.rs build.rs
		export CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_DEBUG=line-tables-only
		quiet cargo build --release --locked --offline --target-dir "$OUT/opt"
	) || fail "pemv does not build"
}
script() { ls -t "$OUT"/pemv/debug/build/pemv-*/build-script-build 2>/dev/null | head -1; }
exes() { # property, tier: sets EXES
	EXES=()
	case $1 in
		C14) EXES=(--exe release "$REPO") ;;
		C15) pemv; EXES=(--exe build-script "$(script)") ;;
		*)
			pemv; EXES=(--exe dev "$OUT/pemv/debug/pemv")
			if [ "$2" = thorough ]; then pemv --release; EXES+=(--exe release "$OUT/pemv/release/pemv"); else optimised; EXES+=(--exe opt "$OUT/opt/release/pemv"); fi ;;
	esac
}
case $1 in
	setup) build_sim; pemv; optimised ;;
	check)
		prop=$2; tier=${VERIF_TIER:-quick}; shift 2
		build_sim; exes "$prop" "$tier"
		exec "$SIM" check --prop "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" "${EXES[@]}" --shim "$OUT/shim.so" --verif "$V" "$@" ;;
	replay)
		[ -r "$2" ] || fail "cannot read $2"
		prop=$(sed -n 's/^plan \(C[0-9]*\) .*/\1/p' "$2" | head -1)
		tier=quick; grep -q '^exe release$' "$2" && tier=thorough
		build_sim; exes "$prop" "$tier"
		exec "$SIM" replay "$2" "${EXES[@]}" --shim "$OUT/shim.so" ;;
	*) sed -n '2,5s/^# //p' "$0"; exit 2 ;;
esac

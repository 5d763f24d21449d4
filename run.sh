#!/bin/bash
# run.sh setup                      builds the harness (both profiles)
# run.sh check <ID> [quick|thorough] decides one property
# run.sh replay <file.case>         re-runs a saved minimal history
# run.sh explain <file.case>        the same, printing every step
#
# The harness is rebuilt from /repo's working tree, with the toolchain and the
# crates of the sandbox only. Nothing outside /verif and /tmp is written.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
H=$VERIF/harness
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$H/target RUST_BACKTRACE=0
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS 2>/dev/null
CHK=$H/target/chk/colacheck
PLAIN=$H/target/release/colacheck

fingerprint() {
	( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; cd "$H" && find src reference Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs sha256sum; rustc --version) | sha256sum)
}

build() {
	mkdir -p "$H/target"
	exec 9>"$H/target/.lock"
	flock 9
	# Cargo looks at modification times; a checkout or a reverted patch can
	# leave those older than the last build, so go by content.
	local now was
	now=$(fingerprint)
	was=$(cat "$H/target/.stamp" 2>/dev/null)
	if [ "$now" = "$was" ] && [ -x "$CHK" ] && [ -x "$PLAIN" ]; then
		exec 9>&-
		return 0
	fi
	rm -f "$H/target/.stamp"
	find /repo/src /repo/Cargo.toml >/dev/null || return 1
	# Forget what was built from cola and the harness in either profile.
	(cd "$H" && cargo clean --offline --profile chk -p cola -p colacheck && cargo clean --offline --release -p cola -p colacheck) >/dev/null 2>&1
	local log=$H/target/build.log rc1 rc2
	(cd "$H" && cargo build --offline --profile chk) >"$log.chk" 2>&1 &
	local a=$!
	# The two builds use different directories, but cargo locks the common one
	# only while it resolves.
	(cd "$H" && CARGO_TARGET_DIR=$H/target cargo build --offline --release) >"$log.release" 2>&1 &
	local b=$!
	wait $a; rc1=$?
	wait $b; rc2=$?
	if [ $rc1 -ne 0 ] || [ $rc2 -ne 0 ]; then
		tail -n 40 "$log.chk" "$log.release" >&2
		echo "error: the harness doesn't build against /repo" >&2
		exec 9>&-
		return 1
	fi
	echo "$now" >"$H/target/.stamp"
	exec 9>&-
	return 0
}

# C23 needs a build that counts how often every region of the code runs.
WORK=$H/target/work/release/colacheck
build_work() {
	# So that no profile is written at exit.
	export LLVM_PROFILE_FILE=/dev/null
	mkdir -p "$H/target"
	exec 8>"$H/target/.lock.work"
	flock 8
	local now was
	now=$(fingerprint)
	was=$(cat "$H/target/.stamp.work" 2>/dev/null)
	if [ "$now" != "$was" ] || ! [ -x "$WORK" ]; then
		rm -f "$H/target/.stamp.work"
		export RUSTFLAGS="-C instrument-coverage" CARGO_TARGET_DIR=$H/target/work
		(cd "$H" && cargo clean --offline --release -p cola -p colacheck) >/dev/null 2>&1
		if ! (cd "$H" && cargo build --offline --release --features work) >"$H/target/build.log.work" 2>&1; then
			tail -n 40 "$H/target/build.log.work" >&2
			echo "error: the harness doesn't build against /repo" >&2
			return 1
		fi
		echo "$now" >"$H/target/.stamp.work"
	fi
	exec 8>&-
}

# C25 runs in builds of its own: a plain one, one with AddressSanitizer, and
# inside Miri (which colasafe builds itself).
SAFE=$VERIF/safety/target/release/colasafe
ASAN=$VERIF/safety/target/asan/x86_64-unknown-linux-gnu/release/colasafe
build_safe() {
	local S=$VERIF/safety
	mkdir -p "$S/target"
	exec 7>"$S/target/.lock"
	flock 7
	local now was
	now=$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; cd "$S" && find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs sha256sum; rustc --version) | sha256sum)
	was=$(cat "$S/target/.stamp" 2>/dev/null)
	if [ "$now" != "$was" ] || ! [ -x "$SAFE" ]; then
		rm -f "$S/target/.stamp"
		(cd "$S"
		export CARGO_TARGET_DIR=$S/target
		cargo clean --offline --release -p cola -p colasafe
		CARGO_TARGET_DIR=$S/target/asan cargo +nightly clean --offline --release --target x86_64-unknown-linux-gnu -p cola -p colasafe
		CARGO_TARGET_DIR=$S/target/miri cargo +nightly clean --offline --release --target x86_64-unknown-linux-gnu -p cola -p colasafe) >/dev/null 2>&1
		(cd "$S" && CARGO_TARGET_DIR=$S/target/asan RUSTFLAGS=-Zsanitizer=address \
			cargo +nightly build --offline --release --target x86_64-unknown-linux-gnu) >"$S/target/build.log.asan" 2>&1 &
		local a=$!
		if ! (cd "$S" && CARGO_TARGET_DIR=$S/target cargo build --offline --release) >"$S/target/build.log" 2>&1; then
			wait $a
			tail -n 40 "$S/target/build.log" >&2
			echo "error: the harness doesn't build against /repo" >&2
			return 1
		fi
		if ! wait $a; then
			echo "note: no build with AddressSanitizer; going on without" >&2
			rm -f "$ASAN"
		fi
		echo "$now" >"$S/target/.stamp"
	fi
	exec 7>&-
	[ -x "$ASAN" ] || ASAN=
}

case "${1:-}" in
setup)
	build && build_work && build_safe || exit 2
	;;
check)
	if [ "${2:-}" = C23 ]; then
		build_work || exit 2
		mkdir -p "$VERIF/evidence"
		exec "$WORK" check --property C23 --tier "${3:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" \
			--out "$VERIF/evidence/C23.json" --replays "$VERIF/replays"
	fi
	if [ "${2:-}" = C25 ]; then
		build_safe || exit 2
		exec "$SAFE" check --asan "$ASAN" --tier "${3:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" \
			--out "$VERIF/evidence/C25.json" --replays "$VERIF/replays"
	fi
	build || exit 2
	mkdir -p "$VERIF/evidence"
	seed=${VERIF_SEED:-1}
	tier=${3:-${VERIF_TIER:-quick}}
	fuzz=()
	if [ "$tier" = thorough ]; then
		# The thorough check goes on with coverage-guided fuzzing.
		if CARGO_TARGET_DIR=$VERIF/fuzz/target cargo +nightly fuzz build --fuzz-dir "$VERIF/fuzz" -s none history >"$H/target/build.log.fuzz" 2>&1; then
			fuzz=(--fuzzer "$(ls "$VERIF"/fuzz/target/*/release/history)" --fuzz-seconds "${FUZZ_SECONDS:-900}")
		else
			tail -n 20 "$H/target/build.log.fuzz" >&2
			echo "note: the fuzzer can't be built; going on without" >&2
		fi
	fi
	exec "$CHK" check --property "$2" --tier "$tier" --seed "$seed" "${fuzz[@]}" \
		--plain "$PLAIN" --out "$VERIF/evidence/$2.json" --replays "$VERIF/replays"
	;;
replay)
	if grep -qx "property C23" "$2"; then
		build_work && exec "$WORK" replay "$2"
		exit 2
	fi
	if grep -qx "property C25" "$2"; then
		build_safe && exec "$SAFE" replay "$2" --asan "$ASAN"
		exit 2
	fi
	build || exit 2
	exec "$CHK" replay "$2" --plain "$PLAIN"
	;;
explain)
	if grep -qx "property C23" "$2"; then
		build_work && exec "$WORK" explain "$2"
		exit 2
	fi
	if grep -qx "property C25" "$2"; then
		build_safe && exec "$SAFE" replay "$2" --asan "$ASAN"
		exit 2
	fi
	build || exit 2
	exec "$CHK" explain "$2"
	;;
*)
	sed -n 2,6p "$0"
	exit 2
	;;
esac

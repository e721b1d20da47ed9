#!/bin/sh
# rustc, as cargo calls it (RUSTC_WRAPPER). The code under test gets a call to
# crevice-edges at every basic block, load and store.
case " $* " in
*" --crate-name crevice "*|*" --crate-name crevice_sim "*)
	exec "$@" -Cpasses=sancov-module \
		-Cllvm-args=-sanitizer-coverage-level=3 \
		-Cllvm-args=-sanitizer-coverage-trace-pc-guard \
		-Cllvm-args=-sanitizer-coverage-trace-loads \
		-Cllvm-args=-sanitizer-coverage-trace-stores
	;;
esac
exec "$@"

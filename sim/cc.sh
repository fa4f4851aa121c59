#!/bin/bash
# C compiler of the instrumented build: the library's own C files get a call
# at every basic block; cgo's generated wrappers must not (they read their
# arguments from a Go stack that may move while a task is parked).
for a in "$@"; do
	case $a in
	*.c)
		b=${a##*/}
		if [ "$b" != zz_verif.c ] && [ -f "${VERIF_REPO:-/repo}/cgo/$b" ]; then
			exec gcc -fsanitize-coverage=trace-pc "$@"
		fi
		;;
	esac
done
exec gcc "$@"

#!/bin/bash
# C compiler of the race build: the library's own C files report every memory
# access (to the functions of zz_race.c).
out=
prev=
own=
for a in "$@"; do
	[ "$prev" = -o ] && out=$a
	case $a in
	*.c)
		b=${a##*/}
		case $b in zz_*) ;; *) [ -f "${VERIF_REPO:-/repo}/cgo/$b" ] && own=1 ;; esac
		;;
	esac
	prev=$a
done
[ "$own" ] && [ "$out" ] || exec gcc "$@"
# Synchronisation inside the C code is not modelled: do not judge code that has it.
grep -lqE 'pthread|stdatomic|_Atomic|__atomic_|__sync_|threads\.h|mtx_|call_once|semaphore\.h' "${VERIF_REPO:-/repo}"/cgo/*.[ch] && exec gcc "$@"
gcc -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset "$@" || exit
args=(--redefine-sym memcpy=__vtsan_memcpy --redefine-sym memmove=__vtsan_memmove --redefine-sym memset=__vtsan_memset)
for s in $(nm -u "$out" | awk '$2 ~ /^__tsan_/ {print $2}'); do
	args+=(--redefine-sym "$s=__vtsan_${s#__tsan_}")
done
exec objcopy "${args[@]}" "$out"

#!/bin/bash
# rustc, with counted edges and compared constants in the packages under test and in the harness
rustc="$1"; shift
case " $* " in
*" --crate-name ic_"* | *" --crate-name pbt "*) ;;
*) exec "$rustc" "$@" ;;
esac
args=()
while [ $# -gt 0 ]; do
    # a dynamic library could not be linked
    [ "$1 $2" = "--crate-type cdylib" ] && { shift 2; continue; }
    args+=("$1"); shift
done
exec "$rustc" "${args[@]}" -Cpasses=sancov-module -Ccodegen-units=1 -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares

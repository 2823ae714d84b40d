#!/bin/sh
# Adds basic-block instrumentation (scheduler yield points, coverage) to the library under test only.
rustc="$1"; shift
case " $* " in
  *" --crate-name geom3d "*) exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C codegen-units=4 ;;
  *) exec "$rustc" "$@" ;;
esac

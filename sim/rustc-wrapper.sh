#!/bin/sh
# Compiles the crate `yamd` (and nothing else) with a callback at every basic block, load and
# store, so that the simulator's scheduler can preempt the real code anywhere. Compiled without
# optimisation (profile "plain") it has the callback at basic blocks only.
rustc="$1"; shift
access="-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
case " $* " in
  *" opt-level="*) ;;
  *) access= ;;
esac
case " $* " in
  *" --crate-name yamd "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
      $access \
      -Ccodegen-units=1 ;;
  *) exec "$rustc" "$@" ;;
esac

#!/bin/bash
# rustc for the harness: the code under test and the harness count which branches are taken (coverage guidance)
case " $* " in
    *" --crate-name vh "* | *" --crate-name matchit "* | *" --crate-name rapiddlt "*)
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
            -Cllvm-args=-simplifycfg-branch-fold-threshold=0;;
esac
exec "$@"

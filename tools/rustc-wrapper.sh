#!/bin/sh
# RUSTC_WRAPPER for the fact extraction (cargo +nightly check, offline).
# 1. As /opt/vp/rustc-wrapper.sh: svm-rs-builds' build script would download a
#    release list; its own feature "_offline" switches that off.
# 2. ahash 0.8.6's build script switches on nightly library features that no
#    longer exist; drop those two cfgs.
if [ "$CARGO_PKG_NAME" = svm-rs-builds ]; then
  case " $* " in
    *" --crate-name build_script_build "*) exec "$@" --cfg 'feature="_offline"' ;;
  esac
fi
if [ "$CARGO_PKG_NAME" = ahash ]; then
  n=$#
  while [ $n -gt 0 ]; do
    a=$1; shift
    if [ "$a" = --cfg ]; then
      b=$1; shift; n=$((n-1))
      case "$b" in
        'feature="stdsimd"'|'feature="specialize"') ;;
        *) set -- "$@" "$a" "$b" ;;
      esac
    else
      set -- "$@" "$a"
    fi
    n=$((n-1))
  done
fi
exec "$@"

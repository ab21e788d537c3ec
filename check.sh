#!/bin/bash
# usage: check.sh PROP quick|thorough   decide one property against /repo's working tree
#        check.sh replay FILE           run one recorded execution again
#        check.sh one PROP INDEX        run one seed and print its history
#        check.sh selftest PROP N       run N seeds twice and compare
VERIF="$(cd "$(dirname "$0")" && pwd)"
export ZZSIM_VERIF="$VERIF"
race() { case " C18 C23 C24 C25 C28 " in *" $1 "*) echo race;; *) echo plain;; esac; }
case "${1:-}" in
replay)
  prop=$(sed -n 's/^ "property": "\(.*\)",$/\1/p' "$2" | head -1)
  BIN=$("$VERIF/build.sh" "$(race "$prop")") || exit 2
  exec "$BIN" replay "$2" ;;
one|selftest)
  BIN=$("$VERIF/build.sh" "$(race "$2")") || exit 2
  exec "$BIN" "$@" ;;
esac
BIN=$("$VERIF/build.sh" "$(race "$1")") || exit 2
exec "$BIN" check "$1" "${2:-quick}"

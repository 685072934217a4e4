#!/bin/bash
# bash run.sh ID [quick|thorough] [space]   decide one property
# bash run.sh replay FILE                   re-run a saved violation
# bash run.sh build                         build only
# Rebuilds the explorer against /repo's working tree every time.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export MC_ROOT="${MC_ROOT:-$here}"
tmp=$(mktemp -d /tmp/mc-run.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$here/mc" || exit 2
if ! go build -o "$tmp/mc" . 2> "$tmp/build.log"; then
	cat "$tmp/build.log" >&2
	exit 2
fi
# C14 also runs builds with a schedule point before every statement.
schedules() {
	mkdir "$tmp/ov" && "$tmp/mc" instrument "$tmp/ov" 2>> "$tmp/build.log" || return
	go build -race -overlay "$tmp/ov/overlay.json" -o "$tmp/mc-race" . 2> "$tmp/race.log" &
	if go build -overlay "$tmp/ov/overlay.json" -o "$tmp/mc-sched" . 2>> "$tmp/build.log"; then
		export MC_SCHED_BIN="$tmp/mc-sched"
	fi
	if wait $! && [ -n "$MC_SCHED_BIN" ]; then
		export MC_RACE_BIN="$tmp/mc-race"
	fi
}
# C17 reaches an unexported type through one file that the build overlays.
trie() {
	local repo
	repo=$(go list -m -f '{{.Dir}}' github.com/yanun0323/goast) || return
	cp "$here/mc/overlay/trie.go.txt" "$tmp/trie.go"
	printf '{"Replace": {"%s/zz_verif_trie.go": "%s/trie.go"}}' "$repo" "$tmp" > "$tmp/trie.json"
	go build -tags verif_trie -overlay "$tmp/trie.json" -o "$tmp/mc-trie" . 2>> "$tmp/build.log" && mv "$tmp/mc-trie" "$tmp/mc"
}
case "$1:$2" in
C17:* | replay:*C17-*) trie ;;
C14:* | replay:*C14-*) schedules ;;
esac
case "$1" in
build) exit 0 ;;
replay) "$tmp/mc" replay "$2" ;;
*) "$tmp/mc" check "$1" "${2:-${VERIF_TIER:-quick}}" "$3" ;;
esac

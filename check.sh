#!/bin/bash
# check.sh ID [quick|thorough]: decides property ID on /repo's working tree.
# check.sh replay FILE: runs the one execution that a violation recorded.
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH="/usr/local/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
ID=${1:?usage: check.sh ID [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
RUN=(-property "$ID" -tier "$TIER" -seed "$SEED" -out "$HERE")
if [ "$ID" = replay ]; then
	RUN=(-replay "$(realpath "$2")")
	ID=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
fi
W=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$HERE/evidence" "$HERE/replays"
rm -f "$HERE/evidence/$ID.json"
cd "$HERE/harness" || exit 3

case "$ID" in
C09 | C17 | C24)
	NOTE=
	go build -o "$W/instr" ./cmd/instr || exit 3
	mkdir "$W/ov"
	if ! "$W/instr" /repo "$W/ov" || [ -s "$W/ov/unmodelled" ]; then
		cat "$W/ov/unmodelled" 2>/dev/null
		NOTE="the code uses constructs the scheduler does not control; threads were run one after another under the race detector only"
	elif ! go build -race -overlay "$W/ov/overlay.json" -o "$W/bin" ./cmd/conc; then
		NOTE="the instrumented code does not build; threads were run one after another under the race detector only"
	fi
	if [ -n "$NOTE" ]; then
		go build -race -o "$W/bin" ./cmd/conc || exit 3
	fi
	mkdir "$W/run"
	RUN+=(-tmp "$W/run" -note "$NOTE")
	;;
C29)
	# package internal, seen through a package that only the overlay has
	cp "$HERE/harness/overlay/verifx.go.txt" "$W/verifx.go"
	printf '{"Replace":{"/repo/verifx/verifx.go":"%s/verifx.go"}}\n' "$W" >"$W/overlay.json"
	go build -tags verifx -overlay "$W/overlay.json" -o "$W/bin" ./cmd/vmc || exit 3
	;;
*)
	go build -o "$W/bin" ./cmd/vmc || exit 3
	;;
esac

"$W/bin" "${RUN[@]}" 2> >(tee "$W/stderr" >&2)
RC=$?
[ $RC = 0 ] || [ $RC = 1 ] && [ -s "$HERE/evidence/$ID.json" -o "$1" = replay ] && exit $RC
# The exploration itself died: if the code under test killed it, that is a
# violation (stack overflow and other fatal errors cannot be recovered from).
sleep 0.2
if grep -qE '^(fatal error|panic|runtime: goroutine stack exceeds|unexpected fault|SIG)' "$W/stderr" && grep -q 'alexispb/mygosnmp/' "$W/stderr"; then
	R="$HERE/replays/$ID.txt"
	head -c 200000 "$W/stderr" >"$R"
	printf '{"property":"%s","tier":"%s","seed":%s,"level":"model_checking","coverage":{"states":0,"transitions":0,"exhaustive":false,"notes":["the code under test ended the process; see %s"]},"assumptions":[],"wall_s":0,"violations":1}\n' \
		"$ID" "$TIER" "$SEED" "$R" >"$HERE/evidence/$ID.json"
	echo "VIOLATION property=$ID replay=$R"
	exit 1
fi
echo "the check of $ID did not end properly (exit $RC)" >&2
exit 3

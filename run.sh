#!/bin/bash
# run.sh PROPERTY [TIER]: build the monitors against /repo's current working tree and run one property's check.
# Exit 0: held on everything observed. Exit 1 and VIOLATION lines: broken. Anything else: the check failed to decide.
# VERIF_SEED and VERIF_TIER choose the workload; more arguments are passed to vmon.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; shift
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1;; esac
case $tier in quick|thorough) ;; *) tier=quick;; esac
here=$(cd "$(dirname "$0")" && pwd)
repo=/repo

export HOME=${HOME:-/root}
if [ -d /opt/veriftools/go1.27.3 ]; then
	export GOROOT=/opt/veriftools/go1.27.3
	export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
fi
unset GOFLAGS
export VMON_HARNESS=$here/harness
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on CGO_ENABLED=1 GOSUMDB=off

d=$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXXXX") || exit 2
trap 'rm -rf "$d"' EXIT
trap 'exit 2' INT TERM HUP
mkdir -p "$d/run" "$d/bin" "$here/evidence"

# The build works on copies of the module files.
cp "$here/harness/go.mod" "$d/h.mod" && cp "$here/harness/go.sum" "$d/h.sum" || exit 2

race=
case $id in C07|C15|C23|C24) race=-race;; esac

build() { # build [-race] OUTPUT: the monitors
	(cd "$here/harness" && go build -mod=mod -modfile="$d/h.mod" $race -o "$d/vmon" .)
}
buildcmd() { # buildcmd MODFILE OUTPUT PACKAGE: a command of the repository
	(cd "$repo" && go build -mod=mod -modfile="$1" $race -o "$2" "$3")
}

if ! build; then
	echo "the monitors cannot be built against $repo" >&2
	exit 2
fi
case $id in
C23|C24|C26|C27|C28)
	cp "$repo/go.mod" "$d/r.mod" && sort -u "$repo/go.sum" "$here/harness/go.sum" > "$d/r.sum" || exit 2
	;;
esac
case $id in
C23|C28) buildcmd "$d/r.mod" "$d/bin/server" ./server || exit 2;;
C13) (cd "$here/harness" && go build -mod=mod -modfile="$d/h.mod" -race -o "$d/bin/toneburst" ./toneburst) || exit 2;;
C26) buildcmd "$d/r.mod" "$d/bin/toaq" . || exit 2;;
C27) buildcmd "$d/r.mod" "$d/bin/dictgen" ./dict/main.go || exit 2;;
C24)
	# The bot runs against a copy of the chat library in which a stand-in that plays a script replaces the Discord client.
	chat=$(cd "$repo" && go list -mod=mod -modfile="$d/r.mod" -m -f '{{.Dir}}' github.com/velour/chat) || exit 2
	cp -r "$chat" "$d/chat" && chmod -R u+w "$d/chat" && rm -f "$d"/chat/discord/* && cp "$here"/harness/fakechat/discord/*.go "$d/chat/discord/" || exit 2
	[ -f "$d/chat/go.mod" ] || printf 'module github.com/velour/chat\n\ngo 1.13\n' > "$d/chat/go.mod"
	echo "replace github.com/velour/chat => $d/chat" >> "$d/r.mod"
	buildcmd "$d/r.mod" "$d/bin/bot" ./bot || exit 2
	;;
esac

"$d/vmon" -prop "$id" -tier "$tier" -seed "$seed" -out "$here/evidence" -dir "$d/run" -bin "$d/bin" -repo "$repo" "$@"

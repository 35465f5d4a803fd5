# usage: fix.sh "message" ; formats, tests, commits
. /opt/vp/env.sh; cd /repo; cargo fmt --all || exit 1
r=$(bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1); echo "$r"
[ "$r" = "55 passed, 0 failed" ] || { echo "NOT COMMITTED"; exit 1; }
git commit -qam "$1" && git log --oneline | head -1

# Several layout files and no choice: refused, with nothing on the output.
for n in a b c d e; do
    echo '{"type":"record","fields":{"'$n'":{"value":{"layout":"https://treeldr.org/prelude#id","input":"_:self"}}}}' > $n.json
done
fail=0
for files in "a.json b.json" "a.json b.json c.json" "a.json b.json c.json d.json" "a.json b.json c.json d.json e.json"; do
    if $TLDR $files hydrate http://e/x < /dev/null > out 2> err || [ -s out ]; then
        echo "accepted: $files"; cat out; fail=1
    fi
done
$TLDR a.json hydrate http://e/x < /dev/null > out 2> err || { echo "refused: a.json"; cat err; fail=1; }
exit $fail

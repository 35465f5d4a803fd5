rsync -a --delete --exclude target /repo/ /tmp/seed/

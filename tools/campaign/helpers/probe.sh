#!/bin/bash
# probe NAME: save diff, reset
cd /tmp/seed; git diff > /tmp/mut/probes/$1.diff; git checkout -q -- .; git diff --stat; echo saved $1 $(wc -l < /tmp/mut/probes/$1.diff)

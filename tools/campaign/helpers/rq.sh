#!/bin/bash
# requeue probes by name
for p in "$@"; do mv /tmp/mut/probes/$p.run /tmp/mut/probes/$p.diff; done

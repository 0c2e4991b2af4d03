#!/bin/bash
# run1.sh P01 513233 [variant]: executes one run of a search (seed 1), shrunk, and prints the replay
p=$1 r=$2 v=${3:-main}; cd "$(dirname "$0")/.."
export ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=190' UBSAN_OPTIONS='print_stacktrace=0:abort_on_error=1'
rm -f /tmp/run1.json; build/$p-$v/simw search --prop $p --seed ${SEED:-1} --worker $r --workers 1000000000 --runs $((r+1)) --time 60 --out /tmp/run1.out --known /dev/null --replay-file /tmp/run1.json --variant $v --shrink 20
python3 - <<'P'
import json
j=json.load(open('/tmp/run1.json'))
for k in ('class','message','sample','trace'):
    if k in j: print(k, json.dumps(j[k])[-1500:])
P

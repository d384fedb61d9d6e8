#!/bin/bash
# usage: gdbhang.sh DIR driver variant seed case  -- runs a case for a few seconds then prints stacks
D=$1; drv=$2; var=$3; seed=$4; c=$5
mkdir -p /dev/shm/gh; rm -rf /dev/shm/gh/s /dev/shm/gh/o*
$D/$var/$drv --seed $seed --from $c --to $((c+1)) --dir /dev/shm/gh/s --out /dev/shm/gh/o >/dev/null 2>&1 &
P=$!; sleep ${6:-6}; gdb -p $P -batch -ex "thread apply all bt 12" 2>/dev/null | grep -v "^\[" | head -${7:-40}; kill -9 $P

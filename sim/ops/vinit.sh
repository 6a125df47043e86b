#!/bin/sh
# vinit.sh OBJECT K: rename the object's initialiser and finaliser lists to vinit_K and vfini_K
set -e
a=""
for s in $(objdump -h "$1" | awk '$2 ~ /^\.(init_array|ctors)/ {print $2}' | sort -u); do a="$a --rename-section $s=vinit_$2"; done
for s in $(objdump -h "$1" | awk '$2 ~ /^\.(fini_array|dtors)/ {print $2}' | sort -u); do a="$a --rename-section $s=vfini_$2"; done
[ -z "$a" ] || objcopy $a "$1"

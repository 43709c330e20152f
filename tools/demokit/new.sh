#!/bin/bash
# new.sh ID [asan|leaks] : finish seeded/ID (holding demo.cpp, meta.json, patch.diff) with the demo kit
K=/verif/tools/demokit; S=/verif/seeded/$1; mkdir -p $S
cp -r /verif/shim $S/; cp $K/common.hpp $S/
case "$2" in asan) X='-g -fsanitize=address'; L=0;; leaks) X='-g -fsanitize=address'; L=1;; *) X=''; L=0;; esac
sed -e "s/SANITIZE/$X/g" -e "s/=LEAKS/=$L/" $K/demo.sh > $S/demo.sh; chmod +x $S/demo.sh

#!/bin/bash
# tools/sym.sh NXX entry [deadline] [extra]: run one entry by hand with the newest build products
E=$(ls -t build/bin/symex-* | head -1); L=$(ls -t build/ll/$1-quick-*.ll build/ll/$1-thorough-*.ll 2>/dev/null| head -1)
rm -rf /tmp/symout; exec $E --ll $L --entry $2 --out /tmp/symout --workers ${W:-8} --deadline ${3:-60} "${@:4}"

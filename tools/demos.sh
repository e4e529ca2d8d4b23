#!/bin/bash
# demos.sh id... : clean and patched results
one(){ id=$1
 w=$(mktemp -d /tmp/pbw.XXXX); git -C /repo archive HEAD | tar -x -C $w
 cp -r /verif/seeded/$id $w.demo
 (cd $w && timeout 300 bash $w.demo/demo.sh >$w.clean 2>&1); a=$?
 (cd $w && git init -q && git apply $w.demo/patch.diff) || echo "$id APPLY FAILED"
 (cd $w && timeout 300 bash $w.demo/demo.sh >$w.pat 2>&1); b=$?
 echo "$id clean=$a patched=$b"; [ $a -ne 0 ] && tail -15 $w.clean; tail -3 $w.pat
 rm -rf $w $w.demo $w.clean $w.pat; }
export -f one
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}'

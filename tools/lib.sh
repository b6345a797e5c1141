#!/bin/bash
# instantiate the specification vocabulary in every package's contract directory
V=$(cd "$(dirname "$0")/.." && pwd)
for d in encoding/bcd encoding/semioctet encoding/gsm7 encoding/gsm7/charset encoding/ucs2 encoding/tpdu encoding/pdumode .; do
 mkdir -p $V/contracts/$d
 p=$(basename $d); [ $d = . ] && p=sms
 sed "s/^package PKG/package $p/" $V/tools/vc_lib.go.tmpl > $V/contracts/$d/vc_lib.go
done

#!/bin/bash
# newdemo.sh ID PKG [FLAGS]: writes seeded/ID/demo.sh from the template
d=/verif/seeded/$1; mkdir -p $d
sed -e "s#@PKG@#$2#g" -e "s#@FLAGS@#$3#" /verif/tools/demo_template.sh > $d/demo.sh; chmod +x $d/demo.sh

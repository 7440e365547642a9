# compile the demo against objects built by ninja in a private build tree /tmp/sd/build
id=$1; d=/verif/seeded/$id
ninja -C /tmp/sd/build mfast_static mfast_coder_static mfast_xml_parser_static mfast_json_static mfast_sqlite3_static fast_type_gen >/tmp/sd/ninja.log 2>&1 || { ninja -C /tmp/sd/build >/tmp/sd/ninja.log 2>&1 || { tail -20 /tmp/sd/ninja.log; exit 9; }; }
mkdir -p /tmp/sd/fake/_build; ln -sfn /repo/src /tmp/sd/fake/src; ln -sfn /tmp/sd/build /tmp/sd/fake/_build/main
cd /tmp/sd/fake && bash $d/demo.sh

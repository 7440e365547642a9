#!/usr/bin/env python3
"""Writes harness/xml/vw.xml (templates and views put through fast_type_gen) and harness/view_gen.h (the same, for the harness)."""
import os, itertools
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
TEMPLATES = '''<template name="L"><uInt32 name="p" presence="optional"/></template>
<define name="G"><group name="gg" presence="optional"><uInt32 name="x" presence="optional"/><string name="y"/><group name="h" presence="optional"><int64 name="z"/></group></group></define>
<template name="W" id="7">
<uInt32 name="a"/>
<uInt32 name="o" presence="optional"/>
<group name="g" presence="optional"><uInt32 name="x" presence="optional"/><string name="y"/><group name="h" presence="optional"><int64 name="z"/></group></group>
<sequence name="s" presence="optional"><uInt32 name="f" presence="optional"/><sequence name="n" presence="optional"><uInt32 name="q"/></sequence><group name="e" presence="optional"><string name="r"/></group></sequence>
<sequence name="u"><string/></sequence>
<group name="l" presence="optional"><templateRef name="L"/></group>
<field name="k"><type name="G"/></field>
</template>
'''
REFS = ["a", "g.x", "g.h.z", "s[0].f", "s[1].n[0].q", "u[1]", "l.p"]
views = [[[r]] for r in REFS + ["o", "g", "g.h", "s", "u", "s[0].n", "s[0].e.r"]]
for x, y in itertools.product(REFS, REFS):
    views += [[[x], [y]], [[x, y]]]
for x, y, z in itertools.product(["g.x", "g.h.z", "s[0].n[0].q", "s[0].f"], repeat=3):
    if x != y and y != z: views += [[[x, y], [z]]]
gviews = [[[r]] for r in ["x", "y", "h", "h.z"]] + [[[a, b]] for a in ["x", "h.z"] for b in ["y", "h.z"]]
def view_xml(name, ref, v):
    return '<view name="%s" reference="%s">%s</view>\n' % (name, ref, "".join("<field>%s</field>" % "".join('<reference name="%s"/>' % r for r in f) for f in v))
xml = '<?xml version="1.0" ?>\n<templates xmlns="http://www.fixprotocol.org/ns/template-definition">\n' + TEMPLATES
head = '// Written by tools/gen_views.py\n#pragma once\n#define VIEW_TEMPLATES R"XX(' + TEMPLATES + ')XX"\n#define GENERATED_VIEWS(V) \\\n'
tab = []
for k, v in enumerate(views):
    xml += view_xml("V%d" % k, "W", v)
    tab.append('V(V%d, "%s")' % (k, ";".join("|".join(f) for f in v)))
head += " \\\n".join(tab) + "\n#define GENERATED_GROUP_VIEWS(V) \\\n"
tab = []
for k, v in enumerate(gviews):
    xml += view_xml("K%d" % k, "G", v)
    tab.append('V(K%d, "%s")' % (k, ";".join("|".join(f) for f in v)))
head += " \\\n".join(tab) + "\n"
for f, t in (("xml/vw.xml", xml + "</templates>\n"), ("view_gen.h", head)):
    with open(os.path.join(H, f), "w") as o: o.write(t)
print(len(views), len(gviews))

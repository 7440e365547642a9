// Written by tools/gen_views.py
#pragma once
#define VIEW_TEMPLATES R"XX(<template name="L"><uInt32 name="p" presence="optional"/></template>
<define name="G"><group name="gg" presence="optional"><uInt32 name="x" presence="optional"/><string name="y"/><group name="h" presence="optional"><int64 name="z"/></group></group></define>
<template name="W" id="7">
<uInt32 name="a"/>
<uInt32 name="o" presence="optional"/>
<group name="g" presence="optional"><uInt32 name="x" presence="optional"/><string name="y"/><group name="h" presence="optional"><int64 name="z"/></group></group>
<sequence name="s" presence="optional"><uInt32 name="f" presence="optional"/><sequence name="n" presence="optional"><uInt32 name="q"/></sequence><group name="e" presence="optional"><string name="r"/></group></sequence>
<sequence name="u"><string/></sequence>
<group name="l" presence="optional"><templateRef name="L"/></group>
<field name="k"><type name="G"/></field>
</template>
)XX"
#define GENERATED_VIEWS(V) \
V(V0, "a") \
V(V1, "g.x") \
V(V2, "g.h.z") \
V(V3, "s[0].f") \
V(V4, "s[1].n[0].q") \
V(V5, "u[1]") \
V(V6, "l.p") \
V(V7, "o") \
V(V8, "g") \
V(V9, "g.h") \
V(V10, "s") \
V(V11, "u") \
V(V12, "s[0].n") \
V(V13, "s[0].e.r") \
V(V14, "a;a") \
V(V15, "a|a") \
V(V16, "a;g.x") \
V(V17, "a|g.x") \
V(V18, "a;g.h.z") \
V(V19, "a|g.h.z") \
V(V20, "a;s[0].f") \
V(V21, "a|s[0].f") \
V(V22, "a;s[1].n[0].q") \
V(V23, "a|s[1].n[0].q") \
V(V24, "a;u[1]") \
V(V25, "a|u[1]") \
V(V26, "a;l.p") \
V(V27, "a|l.p") \
V(V28, "g.x;a") \
V(V29, "g.x|a") \
V(V30, "g.x;g.x") \
V(V31, "g.x|g.x") \
V(V32, "g.x;g.h.z") \
V(V33, "g.x|g.h.z") \
V(V34, "g.x;s[0].f") \
V(V35, "g.x|s[0].f") \
V(V36, "g.x;s[1].n[0].q") \
V(V37, "g.x|s[1].n[0].q") \
V(V38, "g.x;u[1]") \
V(V39, "g.x|u[1]") \
V(V40, "g.x;l.p") \
V(V41, "g.x|l.p") \
V(V42, "g.h.z;a") \
V(V43, "g.h.z|a") \
V(V44, "g.h.z;g.x") \
V(V45, "g.h.z|g.x") \
V(V46, "g.h.z;g.h.z") \
V(V47, "g.h.z|g.h.z") \
V(V48, "g.h.z;s[0].f") \
V(V49, "g.h.z|s[0].f") \
V(V50, "g.h.z;s[1].n[0].q") \
V(V51, "g.h.z|s[1].n[0].q") \
V(V52, "g.h.z;u[1]") \
V(V53, "g.h.z|u[1]") \
V(V54, "g.h.z;l.p") \
V(V55, "g.h.z|l.p") \
V(V56, "s[0].f;a") \
V(V57, "s[0].f|a") \
V(V58, "s[0].f;g.x") \
V(V59, "s[0].f|g.x") \
V(V60, "s[0].f;g.h.z") \
V(V61, "s[0].f|g.h.z") \
V(V62, "s[0].f;s[0].f") \
V(V63, "s[0].f|s[0].f") \
V(V64, "s[0].f;s[1].n[0].q") \
V(V65, "s[0].f|s[1].n[0].q") \
V(V66, "s[0].f;u[1]") \
V(V67, "s[0].f|u[1]") \
V(V68, "s[0].f;l.p") \
V(V69, "s[0].f|l.p") \
V(V70, "s[1].n[0].q;a") \
V(V71, "s[1].n[0].q|a") \
V(V72, "s[1].n[0].q;g.x") \
V(V73, "s[1].n[0].q|g.x") \
V(V74, "s[1].n[0].q;g.h.z") \
V(V75, "s[1].n[0].q|g.h.z") \
V(V76, "s[1].n[0].q;s[0].f") \
V(V77, "s[1].n[0].q|s[0].f") \
V(V78, "s[1].n[0].q;s[1].n[0].q") \
V(V79, "s[1].n[0].q|s[1].n[0].q") \
V(V80, "s[1].n[0].q;u[1]") \
V(V81, "s[1].n[0].q|u[1]") \
V(V82, "s[1].n[0].q;l.p") \
V(V83, "s[1].n[0].q|l.p") \
V(V84, "u[1];a") \
V(V85, "u[1]|a") \
V(V86, "u[1];g.x") \
V(V87, "u[1]|g.x") \
V(V88, "u[1];g.h.z") \
V(V89, "u[1]|g.h.z") \
V(V90, "u[1];s[0].f") \
V(V91, "u[1]|s[0].f") \
V(V92, "u[1];s[1].n[0].q") \
V(V93, "u[1]|s[1].n[0].q") \
V(V94, "u[1];u[1]") \
V(V95, "u[1]|u[1]") \
V(V96, "u[1];l.p") \
V(V97, "u[1]|l.p") \
V(V98, "l.p;a") \
V(V99, "l.p|a") \
V(V100, "l.p;g.x") \
V(V101, "l.p|g.x") \
V(V102, "l.p;g.h.z") \
V(V103, "l.p|g.h.z") \
V(V104, "l.p;s[0].f") \
V(V105, "l.p|s[0].f") \
V(V106, "l.p;s[1].n[0].q") \
V(V107, "l.p|s[1].n[0].q") \
V(V108, "l.p;u[1]") \
V(V109, "l.p|u[1]") \
V(V110, "l.p;l.p") \
V(V111, "l.p|l.p") \
V(V112, "g.x|g.h.z;g.x") \
V(V113, "g.x|g.h.z;s[0].n[0].q") \
V(V114, "g.x|g.h.z;s[0].f") \
V(V115, "g.x|s[0].n[0].q;g.x") \
V(V116, "g.x|s[0].n[0].q;g.h.z") \
V(V117, "g.x|s[0].n[0].q;s[0].f") \
V(V118, "g.x|s[0].f;g.x") \
V(V119, "g.x|s[0].f;g.h.z") \
V(V120, "g.x|s[0].f;s[0].n[0].q") \
V(V121, "g.h.z|g.x;g.h.z") \
V(V122, "g.h.z|g.x;s[0].n[0].q") \
V(V123, "g.h.z|g.x;s[0].f") \
V(V124, "g.h.z|s[0].n[0].q;g.x") \
V(V125, "g.h.z|s[0].n[0].q;g.h.z") \
V(V126, "g.h.z|s[0].n[0].q;s[0].f") \
V(V127, "g.h.z|s[0].f;g.x") \
V(V128, "g.h.z|s[0].f;g.h.z") \
V(V129, "g.h.z|s[0].f;s[0].n[0].q") \
V(V130, "s[0].n[0].q|g.x;g.h.z") \
V(V131, "s[0].n[0].q|g.x;s[0].n[0].q") \
V(V132, "s[0].n[0].q|g.x;s[0].f") \
V(V133, "s[0].n[0].q|g.h.z;g.x") \
V(V134, "s[0].n[0].q|g.h.z;s[0].n[0].q") \
V(V135, "s[0].n[0].q|g.h.z;s[0].f") \
V(V136, "s[0].n[0].q|s[0].f;g.x") \
V(V137, "s[0].n[0].q|s[0].f;g.h.z") \
V(V138, "s[0].n[0].q|s[0].f;s[0].n[0].q") \
V(V139, "s[0].f|g.x;g.h.z") \
V(V140, "s[0].f|g.x;s[0].n[0].q") \
V(V141, "s[0].f|g.x;s[0].f") \
V(V142, "s[0].f|g.h.z;g.x") \
V(V143, "s[0].f|g.h.z;s[0].n[0].q") \
V(V144, "s[0].f|g.h.z;s[0].f") \
V(V145, "s[0].f|s[0].n[0].q;g.x") \
V(V146, "s[0].f|s[0].n[0].q;g.h.z") \
V(V147, "s[0].f|s[0].n[0].q;s[0].f")
#define GENERATED_GROUP_VIEWS(V) \
V(K0, "x") \
V(K1, "y") \
V(K2, "h") \
V(K3, "h.z") \
V(K4, "x|y") \
V(K5, "x|h.z") \
V(K6, "h.z|y") \
V(K7, "h.z|h.z")

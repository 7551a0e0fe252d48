#!/usr/bin/env python3
"""Writes harness/src/tables.rs: what SVG 1.1 says about every element and attribute.

The lists below were typed from the specification and the documentation of the public API; they are the oracle of
C15, C18, C19 and C20 and are not derived from /repo's source."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ELEMENTS = open(V + '/tools/elements.txt').read().split()
ATTRIBUTES = open(V + '/tools/attributes.txt').read().split()


def camel(n):
    return ''.join(p[0].upper() + p[1:] for p in n.replace(':', '-').replace('_', '-').split('-'))


W = str.split
EFLAGS = dict(
    REFERENCED=W('altGlyphDef clipPath cursor filter linearGradient marker mask pattern radialGradient symbol'),
    BASIC=W('rect circle ellipse line polyline polygon'),
    SHAPE=W('path rect circle ellipse line polyline polygon'),
    CONTAINER=W('a defs glyph g marker mask missing-glyph pattern svg switch symbol'),
    TEXTC=W('altGlyph textPath text tref tspan'),
    TEXTCC=W('altGlyph textPath tref tspan'),
    GRAPHIC=W('circle ellipse image line path polygon polyline rect text use'),
    GRADIENT=W('linearGradient radialGradient'),
    SERVER=W('linearGradient radialGradient pattern'),
    FE=W('feBlend feColorMatrix feComponentTransfer feComposite feConvolveMatrix feDiffuseLighting feDisplacementMap '
         'feFlood feGaussianBlur feImage feMerge feMorphology feOffset feSpecularLighting feTile feTurbulence'),
)
PRES = W('alignment-baseline baseline-shift clip clip-path clip-rule color color-interpolation color-interpolation-filters '
         'color-profile color-rendering cursor direction display dominant-baseline enable-background fill fill-opacity '
         'fill-rule filter flood-color flood-opacity font font-family font-size font-size-adjust font-stretch font-style '
         'font-variant font-weight glyph-orientation-horizontal glyph-orientation-vertical image-rendering kerning '
         'letter-spacing lighting-color marker marker-end marker-mid marker-start mask opacity overflow pointer-events '
         'shape-rendering stop-color stop-opacity stroke stroke-dasharray stroke-dashoffset stroke-linecap '
         'stroke-linejoin stroke-miterlimit stroke-opacity stroke-width text-anchor text-decoration text-rendering '
         'unicode-bidi visibility word-spacing writing-mode')
NONINH = W('alignment-baseline baseline-shift clip clip-path display dominant-baseline enable-background filter flood-color '
           'flood-opacity lighting-color mask opacity overflow stop-color stop-opacity text-decoration unicode-bidi visibility')
AFLAGS = dict(
    PRES=PRES,
    INH=[p for p in PRES if p not in NONINH],
    ANIM=W('onbegin onend onload onrepeat'),
    GRAPH=W('onactivate onclick onfocusin onfocusout onload onmousedown onmousemove onmouseout onmouseover onmouseup'),
    DOCEV=W('onabort onerror onresize onscroll onunload onzoom'),
    COND=W('requiredExtensions requiredFeatures systemLanguage'),
    CORE=W('base lang space'),
    FILLG=W('fill fill-opacity fill-rule'),
    STROKEG=W('stroke stroke-dasharray stroke-dashoffset stroke-linecap stroke-linejoin stroke-miterlimit stroke-opacity stroke-width'),
)
KINDS = dict(
    Id=W('id'), Skip=W('style class'), Href=W('href'), Xy=W('x y dx dy'),
    Len=W('x1 y1 x2 y2 r rx ry cx cy fx fy refX refY width height markerWidth markerHeight startOffset'),
    Offset=W('offset'), LenInh=W('stroke-dashoffset stroke-width'), Miter=W('stroke-miterlimit'),
    Opacity=W('opacity fill-opacity flood-opacity stroke-opacity stop-opacity'), Coef=W('k1 k2 k3 k4'),
    Dash=W('stroke-dasharray'), Fill=W('fill'), Stroke=W('stroke'),
    Func=W('clip-path filter marker marker-end marker-mid marker-start mask'),
    Color=W('color'), ColorCur=W('lighting-color flood-color stop-color'),
    NumList=W('stdDeviation baseFrequency rotate'), Points=W('points'), Path=W('d'),
    Transform=W('transform gradientTransform patternTransform'), FontSize=W('font-size'), Adjust=W('font-size-adjust'),
    NoneInh=W('display pointer-events text-decoration'),
    Inh=W('clip-rule color-interpolation color-interpolation-filters color-profile color-rendering direction dominant-baseline '
          'enable-background fill-rule font-family font-stretch font-style font-variant font-weight image-rendering kerning overflow '
          'shape-rendering stroke-linecap stroke-linejoin text-anchor text-rendering unicode-bidi visibility writing-mode'),
    Spacing=W('letter-spacing word-spacing'), Shift=W('baseline-shift'), Orient=W('orient'),
    GlyphH=W('glyph-orientation-horizontal'), GlyphV=W('glyph-orientation-vertical'), ViewBox=W('viewBox'),
    Aspect=W('preserveAspectRatio'), Unicode=W('unicode'),
)
DEFAULTS = {
    'S("auto")': W('alignment-baseline clip color-profile color-rendering cursor dominant-baseline glyph-orientation-vertical '
                   'image-rendering kerning shape-rendering text-rendering'),
    'None': W('clip-path filter font-size-adjust marker marker-end marker-mid marker-start mask stroke stroke-dasharray text-decoration'),
    'S("normal")': W('font-stretch font-style font-variant font-weight letter-spacing unicode-bidi word-spacing'),
    'Black': W('fill flood-color stop-color'),
    'White': W('lighting-color'),
    'One': W('fill-opacity flood-opacity opacity stop-opacity stroke-opacity'),
    'S("nonzero")': W('clip-rule fill-rule'),
    'S("baseline")': W('baseline-shift'), 'S("sRGB")': W('color-interpolation'), 'S("linearRGB")': W('color-interpolation-filters'),
    'S("ltr")': W('direction'), 'S("inline")': W('display'), 'S("accumulate")': W('enable-background'), 'S("medium")': W('font-size'),
    'S("0deg")': W('glyph-orientation-horizontal'), 'Len(0)': W('stroke-dashoffset'), 'S("butt")': W('stroke-linecap'),
    'S("miter")': W('stroke-linejoin'), 'Len(4)': W('stroke-miterlimit'), 'Len(1)': W('stroke-width'), 'S("start")': W('text-anchor'),
    'S("visible")': W('visibility'), 'S("lr-tb")': W('writing-mode'),
}
for d, names in ((EFLAGS, ELEMENTS), (AFLAGS, ATTRIBUTES), (KINDS, ATTRIBUTES), (DEFAULTS, ATTRIBUTES)):
    for k, v in d.items():
        for x in v:
            assert x in names, (k, x)


def flags(n, fl):
    f = [k for k in fl if n in fl[k]]
    return ' | '.join(f) if f else '0'


def one(n, d, dflt):
    f = [k for k in d if n in d[k]]
    assert len(f) <= 1, (n, f)
    return f[0] if f else dflt


o = ['//! Generated by tools/gen_tables.py.', '#![allow(unused)]', 'use svgdom::*;', '']
for fl in (EFLAGS, AFLAGS):
    for i, k in enumerate(fl):
        o.append('pub const %s: u32 = 1 << %d;' % (k, i))
o.append('#[derive(Clone, Copy, PartialEq)]\npub enum Kind { %s, Str }' % ', '.join(KINDS))
o.append('#[derive(Clone, Copy, PartialEq)]\npub enum Def { No, None, Black, White, One, Len(u8), S(&\'static str) }')
o.append('use Def::*;')
o.append('pub struct E { pub id: ElementId, pub name: &\'static str, pub flags: u32 }')
o.append('pub struct A { pub id: AttributeId, pub name: &\'static str, pub flags: u32, pub kind: Kind, pub def: Def }')
o.append('pub static ELEMS: [E; %d] = [' % len(ELEMENTS))
for n in ELEMENTS:
    o.append('    E { id: ElementId::%s, name: "%s", flags: %s },' % (camel(n), n, flags(n, EFLAGS)))
o.append('];')
o.append('pub static ATTRS: [A; %d] = [' % len(ATTRIBUTES))
for n in ATTRIBUTES:
    o.append('    A { id: AttributeId::%s, name: "%s", flags: %s, kind: Kind::%s, def: %s },' %
             (camel(n), n, flags(n, AFLAGS), one(n, KINDS, 'Str'), 'Def::' + one(n, DEFAULTS, 'No')))
o.append('];')
open(V + '/harness/src/tables.rs', 'w').write('\n'.join(o) + '\n')
print(len(ELEMENTS), len(ATTRIBUTES))

//! Generated by tools/gen_tables.py.
#![allow(unused)]
use svgdom::*;

pub const REFERENCED: u32 = 1 << 0;
pub const BASIC: u32 = 1 << 1;
pub const SHAPE: u32 = 1 << 2;
pub const CONTAINER: u32 = 1 << 3;
pub const TEXTC: u32 = 1 << 4;
pub const TEXTCC: u32 = 1 << 5;
pub const GRAPHIC: u32 = 1 << 6;
pub const GRADIENT: u32 = 1 << 7;
pub const SERVER: u32 = 1 << 8;
pub const FE: u32 = 1 << 9;
pub const PRES: u32 = 1 << 0;
pub const INH: u32 = 1 << 1;
pub const ANIM: u32 = 1 << 2;
pub const GRAPH: u32 = 1 << 3;
pub const DOCEV: u32 = 1 << 4;
pub const COND: u32 = 1 << 5;
pub const CORE: u32 = 1 << 6;
pub const FILLG: u32 = 1 << 7;
pub const STROKEG: u32 = 1 << 8;
#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Id, Skip, Href, Xy, Len, Offset, LenInh, Miter, Opacity, Coef, Dash, Fill, Stroke, Func, Color, ColorCur, NumList, Points, Path, Transform, FontSize, Adjust, NoneInh, Inh, Spacing, Shift, Orient, GlyphH, GlyphV, ViewBox, Aspect, Unicode, Str }
#[derive(Clone, Copy, PartialEq)]
pub enum Def { No, None, Black, White, One, Len(u8), S(&'static str) }
use Def::*;
pub struct E { pub id: ElementId, pub name: &'static str, pub flags: u32 }
pub struct A { pub id: AttributeId, pub name: &'static str, pub flags: u32, pub kind: Kind, pub def: Def }
pub static ELEMS: [E; 80] = [
    E { id: ElementId::A, name: "a", flags: CONTAINER },
    E { id: ElementId::AltGlyph, name: "altGlyph", flags: TEXTC | TEXTCC },
    E { id: ElementId::AltGlyphDef, name: "altGlyphDef", flags: REFERENCED },
    E { id: ElementId::AltGlyphItem, name: "altGlyphItem", flags: 0 },
    E { id: ElementId::Animate, name: "animate", flags: 0 },
    E { id: ElementId::AnimateColor, name: "animateColor", flags: 0 },
    E { id: ElementId::AnimateMotion, name: "animateMotion", flags: 0 },
    E { id: ElementId::AnimateTransform, name: "animateTransform", flags: 0 },
    E { id: ElementId::Circle, name: "circle", flags: BASIC | SHAPE | GRAPHIC },
    E { id: ElementId::ClipPath, name: "clipPath", flags: REFERENCED },
    E { id: ElementId::ColorProfile, name: "color-profile", flags: 0 },
    E { id: ElementId::Cursor, name: "cursor", flags: REFERENCED },
    E { id: ElementId::Defs, name: "defs", flags: CONTAINER },
    E { id: ElementId::Desc, name: "desc", flags: 0 },
    E { id: ElementId::Ellipse, name: "ellipse", flags: BASIC | SHAPE | GRAPHIC },
    E { id: ElementId::FeBlend, name: "feBlend", flags: FE },
    E { id: ElementId::FeColorMatrix, name: "feColorMatrix", flags: FE },
    E { id: ElementId::FeComponentTransfer, name: "feComponentTransfer", flags: FE },
    E { id: ElementId::FeComposite, name: "feComposite", flags: FE },
    E { id: ElementId::FeConvolveMatrix, name: "feConvolveMatrix", flags: FE },
    E { id: ElementId::FeDiffuseLighting, name: "feDiffuseLighting", flags: FE },
    E { id: ElementId::FeDisplacementMap, name: "feDisplacementMap", flags: FE },
    E { id: ElementId::FeDistantLight, name: "feDistantLight", flags: 0 },
    E { id: ElementId::FeFlood, name: "feFlood", flags: FE },
    E { id: ElementId::FeFuncA, name: "feFuncA", flags: 0 },
    E { id: ElementId::FeFuncB, name: "feFuncB", flags: 0 },
    E { id: ElementId::FeFuncG, name: "feFuncG", flags: 0 },
    E { id: ElementId::FeFuncR, name: "feFuncR", flags: 0 },
    E { id: ElementId::FeGaussianBlur, name: "feGaussianBlur", flags: FE },
    E { id: ElementId::FeImage, name: "feImage", flags: FE },
    E { id: ElementId::FeMerge, name: "feMerge", flags: FE },
    E { id: ElementId::FeMergeNode, name: "feMergeNode", flags: 0 },
    E { id: ElementId::FeMorphology, name: "feMorphology", flags: FE },
    E { id: ElementId::FeOffset, name: "feOffset", flags: FE },
    E { id: ElementId::FePointLight, name: "fePointLight", flags: 0 },
    E { id: ElementId::FeSpecularLighting, name: "feSpecularLighting", flags: FE },
    E { id: ElementId::FeSpotLight, name: "feSpotLight", flags: 0 },
    E { id: ElementId::FeTile, name: "feTile", flags: FE },
    E { id: ElementId::FeTurbulence, name: "feTurbulence", flags: FE },
    E { id: ElementId::Filter, name: "filter", flags: REFERENCED },
    E { id: ElementId::Font, name: "font", flags: 0 },
    E { id: ElementId::FontFace, name: "font-face", flags: 0 },
    E { id: ElementId::FontFaceFormat, name: "font-face-format", flags: 0 },
    E { id: ElementId::FontFaceName, name: "font-face-name", flags: 0 },
    E { id: ElementId::FontFaceSrc, name: "font-face-src", flags: 0 },
    E { id: ElementId::FontFaceUri, name: "font-face-uri", flags: 0 },
    E { id: ElementId::ForeignObject, name: "foreignObject", flags: 0 },
    E { id: ElementId::G, name: "g", flags: CONTAINER },
    E { id: ElementId::Glyph, name: "glyph", flags: CONTAINER },
    E { id: ElementId::GlyphRef, name: "glyphRef", flags: 0 },
    E { id: ElementId::Hkern, name: "hkern", flags: 0 },
    E { id: ElementId::Image, name: "image", flags: GRAPHIC },
    E { id: ElementId::Line, name: "line", flags: BASIC | SHAPE | GRAPHIC },
    E { id: ElementId::LinearGradient, name: "linearGradient", flags: REFERENCED | GRADIENT | SERVER },
    E { id: ElementId::Marker, name: "marker", flags: REFERENCED | CONTAINER },
    E { id: ElementId::Mask, name: "mask", flags: REFERENCED | CONTAINER },
    E { id: ElementId::Metadata, name: "metadata", flags: 0 },
    E { id: ElementId::MissingGlyph, name: "missing-glyph", flags: CONTAINER },
    E { id: ElementId::Mpath, name: "mpath", flags: 0 },
    E { id: ElementId::Path, name: "path", flags: SHAPE | GRAPHIC },
    E { id: ElementId::Pattern, name: "pattern", flags: REFERENCED | CONTAINER | SERVER },
    E { id: ElementId::Polygon, name: "polygon", flags: BASIC | SHAPE | GRAPHIC },
    E { id: ElementId::Polyline, name: "polyline", flags: BASIC | SHAPE | GRAPHIC },
    E { id: ElementId::RadialGradient, name: "radialGradient", flags: REFERENCED | GRADIENT | SERVER },
    E { id: ElementId::Rect, name: "rect", flags: BASIC | SHAPE | GRAPHIC },
    E { id: ElementId::Script, name: "script", flags: 0 },
    E { id: ElementId::Set, name: "set", flags: 0 },
    E { id: ElementId::Stop, name: "stop", flags: 0 },
    E { id: ElementId::Style, name: "style", flags: 0 },
    E { id: ElementId::Svg, name: "svg", flags: CONTAINER },
    E { id: ElementId::Switch, name: "switch", flags: CONTAINER },
    E { id: ElementId::Symbol, name: "symbol", flags: REFERENCED | CONTAINER },
    E { id: ElementId::Text, name: "text", flags: TEXTC | GRAPHIC },
    E { id: ElementId::TextPath, name: "textPath", flags: TEXTC | TEXTCC },
    E { id: ElementId::Title, name: "title", flags: 0 },
    E { id: ElementId::Tref, name: "tref", flags: TEXTC | TEXTCC },
    E { id: ElementId::Tspan, name: "tspan", flags: TEXTC | TEXTCC },
    E { id: ElementId::Use, name: "use", flags: GRAPHIC },
    E { id: ElementId::View, name: "view", flags: 0 },
    E { id: ElementId::Vkern, name: "vkern", flags: 0 },
];
pub static ATTRS: [A; 270] = [
    A { id: AttributeId::AccentHeight, name: "accent-height", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Accumulate, name: "accumulate", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Actuate, name: "actuate", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Additive, name: "additive", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::AlignmentBaseline, name: "alignment-baseline", flags: PRES, kind: Kind::Str, def: Def::S("auto") },
    A { id: AttributeId::Alphabetic, name: "alphabetic", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Amplitude, name: "amplitude", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::ArabicForm, name: "arabic-form", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Arcrole, name: "arcrole", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Ascent, name: "ascent", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::AttributeName, name: "attributeName", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::AttributeType, name: "attributeType", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Azimuth, name: "azimuth", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Base, name: "base", flags: CORE, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::BaseFrequency, name: "baseFrequency", flags: 0, kind: Kind::NumList, def: Def::No },
    A { id: AttributeId::BaselineShift, name: "baseline-shift", flags: PRES, kind: Kind::Shift, def: Def::S("baseline") },
    A { id: AttributeId::BaseProfile, name: "baseProfile", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Bbox, name: "bbox", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Begin, name: "begin", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Bias, name: "bias", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::By, name: "by", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::CalcMode, name: "calcMode", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::CapHeight, name: "cap-height", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Class, name: "class", flags: 0, kind: Kind::Skip, def: Def::No },
    A { id: AttributeId::Clip, name: "clip", flags: PRES, kind: Kind::Str, def: Def::S("auto") },
    A { id: AttributeId::ClipPath, name: "clip-path", flags: PRES, kind: Kind::Func, def: Def::None },
    A { id: AttributeId::ClipRule, name: "clip-rule", flags: PRES | INH, kind: Kind::Inh, def: Def::S("nonzero") },
    A { id: AttributeId::ClipPathUnits, name: "clipPathUnits", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Color, name: "color", flags: PRES | INH, kind: Kind::Color, def: Def::No },
    A { id: AttributeId::ColorInterpolation, name: "color-interpolation", flags: PRES | INH, kind: Kind::Inh, def: Def::S("sRGB") },
    A { id: AttributeId::ColorInterpolationFilters, name: "color-interpolation-filters", flags: PRES | INH, kind: Kind::Inh, def: Def::S("linearRGB") },
    A { id: AttributeId::ColorProfile, name: "color-profile", flags: PRES | INH, kind: Kind::Inh, def: Def::S("auto") },
    A { id: AttributeId::ColorRendering, name: "color-rendering", flags: PRES | INH, kind: Kind::Inh, def: Def::S("auto") },
    A { id: AttributeId::ContentScriptType, name: "contentScriptType", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::ContentStyleType, name: "contentStyleType", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Cursor, name: "cursor", flags: PRES | INH, kind: Kind::Str, def: Def::S("auto") },
    A { id: AttributeId::Cx, name: "cx", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::Cy, name: "cy", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::D, name: "d", flags: 0, kind: Kind::Path, def: Def::No },
    A { id: AttributeId::Descent, name: "descent", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::DiffuseConstant, name: "diffuseConstant", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Direction, name: "direction", flags: PRES | INH, kind: Kind::Inh, def: Def::S("ltr") },
    A { id: AttributeId::Display, name: "display", flags: PRES, kind: Kind::NoneInh, def: Def::S("inline") },
    A { id: AttributeId::Divisor, name: "divisor", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::DominantBaseline, name: "dominant-baseline", flags: PRES, kind: Kind::Inh, def: Def::S("auto") },
    A { id: AttributeId::Dur, name: "dur", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Dx, name: "dx", flags: 0, kind: Kind::Xy, def: Def::No },
    A { id: AttributeId::Dy, name: "dy", flags: 0, kind: Kind::Xy, def: Def::No },
    A { id: AttributeId::EdgeMode, name: "edgeMode", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Elevation, name: "elevation", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::EnableBackground, name: "enable-background", flags: PRES, kind: Kind::Inh, def: Def::S("accumulate") },
    A { id: AttributeId::Encoding, name: "encoding", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::End, name: "end", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Exponent, name: "exponent", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::ExternalResourcesRequired, name: "externalResourcesRequired", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Fill, name: "fill", flags: PRES | INH | FILLG, kind: Kind::Fill, def: Def::Black },
    A { id: AttributeId::FillOpacity, name: "fill-opacity", flags: PRES | INH | FILLG, kind: Kind::Opacity, def: Def::One },
    A { id: AttributeId::FillRule, name: "fill-rule", flags: PRES | INH | FILLG, kind: Kind::Inh, def: Def::S("nonzero") },
    A { id: AttributeId::Filter, name: "filter", flags: PRES, kind: Kind::Func, def: Def::None },
    A { id: AttributeId::FilterRes, name: "filterRes", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::FilterUnits, name: "filterUnits", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::FloodColor, name: "flood-color", flags: PRES, kind: Kind::ColorCur, def: Def::Black },
    A { id: AttributeId::FloodOpacity, name: "flood-opacity", flags: PRES, kind: Kind::Opacity, def: Def::One },
    A { id: AttributeId::Font, name: "font", flags: PRES | INH, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::FontFamily, name: "font-family", flags: PRES | INH, kind: Kind::Inh, def: Def::No },
    A { id: AttributeId::FontSize, name: "font-size", flags: PRES | INH, kind: Kind::FontSize, def: Def::S("medium") },
    A { id: AttributeId::FontSizeAdjust, name: "font-size-adjust", flags: PRES | INH, kind: Kind::Adjust, def: Def::None },
    A { id: AttributeId::FontStretch, name: "font-stretch", flags: PRES | INH, kind: Kind::Inh, def: Def::S("normal") },
    A { id: AttributeId::FontStyle, name: "font-style", flags: PRES | INH, kind: Kind::Inh, def: Def::S("normal") },
    A { id: AttributeId::FontVariant, name: "font-variant", flags: PRES | INH, kind: Kind::Inh, def: Def::S("normal") },
    A { id: AttributeId::FontWeight, name: "font-weight", flags: PRES | INH, kind: Kind::Inh, def: Def::S("normal") },
    A { id: AttributeId::Format, name: "format", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::From, name: "from", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Fx, name: "fx", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::Fy, name: "fy", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::G1, name: "g1", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::G2, name: "g2", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::GlyphName, name: "glyph-name", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::GlyphOrientationHorizontal, name: "glyph-orientation-horizontal", flags: PRES | INH, kind: Kind::GlyphH, def: Def::S("0deg") },
    A { id: AttributeId::GlyphOrientationVertical, name: "glyph-orientation-vertical", flags: PRES | INH, kind: Kind::GlyphV, def: Def::S("auto") },
    A { id: AttributeId::GlyphRef, name: "glyphRef", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::GradientTransform, name: "gradientTransform", flags: 0, kind: Kind::Transform, def: Def::No },
    A { id: AttributeId::GradientUnits, name: "gradientUnits", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Hanging, name: "hanging", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Height, name: "height", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::HorizAdvX, name: "horiz-adv-x", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::HorizOriginX, name: "horiz-origin-x", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::HorizOriginY, name: "horiz-origin-y", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Href, name: "href", flags: 0, kind: Kind::Href, def: Def::No },
    A { id: AttributeId::Id, name: "id", flags: 0, kind: Kind::Id, def: Def::No },
    A { id: AttributeId::Ideographic, name: "ideographic", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::ImageRendering, name: "image-rendering", flags: PRES | INH, kind: Kind::Inh, def: Def::S("auto") },
    A { id: AttributeId::In, name: "in", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::In2, name: "in2", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Intercept, name: "intercept", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::K, name: "k", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::K1, name: "k1", flags: 0, kind: Kind::Coef, def: Def::No },
    A { id: AttributeId::K2, name: "k2", flags: 0, kind: Kind::Coef, def: Def::No },
    A { id: AttributeId::K3, name: "k3", flags: 0, kind: Kind::Coef, def: Def::No },
    A { id: AttributeId::K4, name: "k4", flags: 0, kind: Kind::Coef, def: Def::No },
    A { id: AttributeId::KernelMatrix, name: "kernelMatrix", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::KernelUnitLength, name: "kernelUnitLength", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Kerning, name: "kerning", flags: PRES | INH, kind: Kind::Inh, def: Def::S("auto") },
    A { id: AttributeId::KeyPoints, name: "keyPoints", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::KeySplines, name: "keySplines", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::KeyTimes, name: "keyTimes", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Lang, name: "lang", flags: CORE, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::LengthAdjust, name: "lengthAdjust", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::LetterSpacing, name: "letter-spacing", flags: PRES | INH, kind: Kind::Spacing, def: Def::S("normal") },
    A { id: AttributeId::LightingColor, name: "lighting-color", flags: PRES, kind: Kind::ColorCur, def: Def::White },
    A { id: AttributeId::LimitingConeAngle, name: "limitingConeAngle", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::LineHeight, name: "line-height", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Local, name: "local", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Marker, name: "marker", flags: PRES | INH, kind: Kind::Func, def: Def::None },
    A { id: AttributeId::MarkerEnd, name: "marker-end", flags: PRES | INH, kind: Kind::Func, def: Def::None },
    A { id: AttributeId::MarkerMid, name: "marker-mid", flags: PRES | INH, kind: Kind::Func, def: Def::None },
    A { id: AttributeId::MarkerStart, name: "marker-start", flags: PRES | INH, kind: Kind::Func, def: Def::None },
    A { id: AttributeId::MarkerHeight, name: "markerHeight", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::MarkerUnits, name: "markerUnits", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::MarkerWidth, name: "markerWidth", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::Mask, name: "mask", flags: PRES, kind: Kind::Func, def: Def::None },
    A { id: AttributeId::MaskContentUnits, name: "maskContentUnits", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::MaskUnits, name: "maskUnits", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Mathematical, name: "mathematical", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Max, name: "max", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Media, name: "media", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Method, name: "method", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Min, name: "min", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Mode, name: "mode", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Name, name: "name", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::NumOctaves, name: "numOctaves", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Offset, name: "offset", flags: 0, kind: Kind::Offset, def: Def::No },
    A { id: AttributeId::Onabort, name: "onabort", flags: DOCEV, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onactivate, name: "onactivate", flags: GRAPH, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onbegin, name: "onbegin", flags: ANIM, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onclick, name: "onclick", flags: GRAPH, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onend, name: "onend", flags: ANIM, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onerror, name: "onerror", flags: DOCEV, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onfocusin, name: "onfocusin", flags: GRAPH, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onfocusout, name: "onfocusout", flags: GRAPH, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onload, name: "onload", flags: ANIM | GRAPH, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onmousedown, name: "onmousedown", flags: GRAPH, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onmousemove, name: "onmousemove", flags: GRAPH, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onmouseout, name: "onmouseout", flags: GRAPH, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onmouseover, name: "onmouseover", flags: GRAPH, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onmouseup, name: "onmouseup", flags: GRAPH, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onrepeat, name: "onrepeat", flags: ANIM, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onresize, name: "onresize", flags: DOCEV, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onscroll, name: "onscroll", flags: DOCEV, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onunload, name: "onunload", flags: DOCEV, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Onzoom, name: "onzoom", flags: DOCEV, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Opacity, name: "opacity", flags: PRES, kind: Kind::Opacity, def: Def::One },
    A { id: AttributeId::Operator, name: "operator", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Order, name: "order", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Orient, name: "orient", flags: 0, kind: Kind::Orient, def: Def::No },
    A { id: AttributeId::Orientation, name: "orientation", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Origin, name: "origin", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Overflow, name: "overflow", flags: PRES, kind: Kind::Inh, def: Def::No },
    A { id: AttributeId::OverlinePosition, name: "overline-position", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::OverlineThickness, name: "overline-thickness", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Panose1, name: "panose-1", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Path, name: "path", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::PathLength, name: "pathLength", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::PatternContentUnits, name: "patternContentUnits", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::PatternTransform, name: "patternTransform", flags: 0, kind: Kind::Transform, def: Def::No },
    A { id: AttributeId::PatternUnits, name: "patternUnits", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::PointerEvents, name: "pointer-events", flags: PRES | INH, kind: Kind::NoneInh, def: Def::No },
    A { id: AttributeId::Points, name: "points", flags: 0, kind: Kind::Points, def: Def::No },
    A { id: AttributeId::PointsAtX, name: "pointsAtX", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::PointsAtY, name: "pointsAtY", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::PointsAtZ, name: "pointsAtZ", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::PreserveAlpha, name: "preserveAlpha", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::PreserveAspectRatio, name: "preserveAspectRatio", flags: 0, kind: Kind::Aspect, def: Def::No },
    A { id: AttributeId::PrimitiveUnits, name: "primitiveUnits", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::R, name: "r", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::Radius, name: "radius", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::RefX, name: "refX", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::RefY, name: "refY", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::RenderingIntent, name: "rendering-intent", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::RepeatCount, name: "repeatCount", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::RepeatDur, name: "repeatDur", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::RequiredExtensions, name: "requiredExtensions", flags: COND, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::RequiredFeatures, name: "requiredFeatures", flags: COND, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Restart, name: "restart", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Result, name: "result", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Role, name: "role", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Rotate, name: "rotate", flags: 0, kind: Kind::NumList, def: Def::No },
    A { id: AttributeId::Rx, name: "rx", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::Ry, name: "ry", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::Scale, name: "scale", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Seed, name: "seed", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::ShapeRendering, name: "shape-rendering", flags: PRES | INH, kind: Kind::Inh, def: Def::S("auto") },
    A { id: AttributeId::Show, name: "show", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Slope, name: "slope", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Space, name: "space", flags: CORE, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Spacing, name: "spacing", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::SpecularConstant, name: "specularConstant", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::SpecularExponent, name: "specularExponent", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::SpreadMethod, name: "spreadMethod", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Standalone, name: "standalone", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::StartOffset, name: "startOffset", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::StdDeviation, name: "stdDeviation", flags: 0, kind: Kind::NumList, def: Def::No },
    A { id: AttributeId::Stemh, name: "stemh", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Stemv, name: "stemv", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::StitchTiles, name: "stitchTiles", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::StopColor, name: "stop-color", flags: PRES, kind: Kind::ColorCur, def: Def::Black },
    A { id: AttributeId::StopOpacity, name: "stop-opacity", flags: PRES, kind: Kind::Opacity, def: Def::One },
    A { id: AttributeId::StrikethroughPosition, name: "strikethrough-position", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::StrikethroughThickness, name: "strikethrough-thickness", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::String, name: "string", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Stroke, name: "stroke", flags: PRES | INH | STROKEG, kind: Kind::Stroke, def: Def::None },
    A { id: AttributeId::StrokeDasharray, name: "stroke-dasharray", flags: PRES | INH | STROKEG, kind: Kind::Dash, def: Def::None },
    A { id: AttributeId::StrokeDashoffset, name: "stroke-dashoffset", flags: PRES | INH | STROKEG, kind: Kind::LenInh, def: Def::Len(0) },
    A { id: AttributeId::StrokeLinecap, name: "stroke-linecap", flags: PRES | INH | STROKEG, kind: Kind::Inh, def: Def::S("butt") },
    A { id: AttributeId::StrokeLinejoin, name: "stroke-linejoin", flags: PRES | INH | STROKEG, kind: Kind::Inh, def: Def::S("miter") },
    A { id: AttributeId::StrokeMiterlimit, name: "stroke-miterlimit", flags: PRES | INH | STROKEG, kind: Kind::Miter, def: Def::Len(4) },
    A { id: AttributeId::StrokeOpacity, name: "stroke-opacity", flags: PRES | INH | STROKEG, kind: Kind::Opacity, def: Def::One },
    A { id: AttributeId::StrokeWidth, name: "stroke-width", flags: PRES | INH | STROKEG, kind: Kind::LenInh, def: Def::Len(1) },
    A { id: AttributeId::Style, name: "style", flags: 0, kind: Kind::Skip, def: Def::No },
    A { id: AttributeId::SurfaceScale, name: "surfaceScale", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::SystemLanguage, name: "systemLanguage", flags: COND, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::TableValues, name: "tableValues", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Target, name: "target", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::TargetX, name: "targetX", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::TargetY, name: "targetY", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::TextAnchor, name: "text-anchor", flags: PRES | INH, kind: Kind::Inh, def: Def::S("start") },
    A { id: AttributeId::TextDecoration, name: "text-decoration", flags: PRES, kind: Kind::NoneInh, def: Def::None },
    A { id: AttributeId::TextRendering, name: "text-rendering", flags: PRES | INH, kind: Kind::Inh, def: Def::S("auto") },
    A { id: AttributeId::TextLength, name: "textLength", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Title, name: "title", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::To, name: "to", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Transform, name: "transform", flags: 0, kind: Kind::Transform, def: Def::No },
    A { id: AttributeId::Type, name: "type", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::U1, name: "u1", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::U2, name: "u2", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::UnderlinePosition, name: "underline-position", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::UnderlineThickness, name: "underline-thickness", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Unicode, name: "unicode", flags: 0, kind: Kind::Unicode, def: Def::No },
    A { id: AttributeId::UnicodeBidi, name: "unicode-bidi", flags: PRES, kind: Kind::Inh, def: Def::S("normal") },
    A { id: AttributeId::UnicodeRange, name: "unicode-range", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::UnitsPerEm, name: "units-per-em", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::VAlphabetic, name: "v-alphabetic", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::VHanging, name: "v-hanging", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::VIdeographic, name: "v-ideographic", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::VMathematical, name: "v-mathematical", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Values, name: "values", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Version, name: "version", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::VertAdvY, name: "vert-adv-y", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::VertOriginX, name: "vert-origin-x", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::VertOriginY, name: "vert-origin-y", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::ViewBox, name: "viewBox", flags: 0, kind: Kind::ViewBox, def: Def::No },
    A { id: AttributeId::ViewTarget, name: "viewTarget", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Visibility, name: "visibility", flags: PRES, kind: Kind::Inh, def: Def::S("visible") },
    A { id: AttributeId::Width, name: "width", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::Widths, name: "widths", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::WordSpacing, name: "word-spacing", flags: PRES | INH, kind: Kind::Spacing, def: Def::S("normal") },
    A { id: AttributeId::WritingMode, name: "writing-mode", flags: PRES | INH, kind: Kind::Inh, def: Def::S("lr-tb") },
    A { id: AttributeId::X, name: "x", flags: 0, kind: Kind::Xy, def: Def::No },
    A { id: AttributeId::XHeight, name: "x-height", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::X1, name: "x1", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::X2, name: "x2", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::XChannelSelector, name: "xChannelSelector", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Xlink, name: "xlink", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Xmlns, name: "xmlns", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Y, name: "y", flags: 0, kind: Kind::Xy, def: Def::No },
    A { id: AttributeId::Y1, name: "y1", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::Y2, name: "y2", flags: 0, kind: Kind::Len, def: Def::No },
    A { id: AttributeId::YChannelSelector, name: "yChannelSelector", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::Z, name: "z", flags: 0, kind: Kind::Str, def: Def::No },
    A { id: AttributeId::ZoomAndPan, name: "zoomAndPan", flags: 0, kind: Kind::Str, def: Def::No },
];

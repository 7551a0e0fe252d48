"""Which harness runs decide which property, at which bounds."""
Q, T = ('quick', 'thorough'), ('thorough',)


def run(entry, tiers, bounds, **k):
    return dict(entry=entry, tiers=tiers, bounds=bounds, **k)


# of large sizes only some positions are tried
FEW = 'of the parts at the ends and next to powers of two'
BIG = dict(opts={'max-steps': 60_000_000})

PROPS = {
    'C01': dict(runs=[
        run('c01_q', Q, 'every forest of the document root and 4 nodes, every history of 2 edits',
            reach=['append', 'prepend', 'insert_before', 'insert_after', 'detach']),
        run('c01_w', Q, 'every forest of the document root and 5 nodes, every single edit'),
        run('c01_t', T, 'every forest of the document root and 3 nodes, every history of 3 edits'),
        run('c01_t2', T, 'every forest of the document root and 5 nodes, every history of 2 edits'),
        run('c01_big', Q, '4 shapes of a tree of 18 nodes (wide, a chain, binary, a comb), every single edit'),
        run('c01_far', Q, 'the same with 140 nodes, edits of ' + FEW, **BIG),
        run('c01_fart', T, 'the same with 300 nodes, edits of ' + FEW, **BIG),
    ], assumptions=['a node is never placed inside of itself or of its own subtree; insert_before/insert_after are called on nodes that have a parent']),
    'C02': dict(runs=[
        run('c02_q', Q, 'every forest of the document root and 3 nodes, every history of 2 edits, also next to nodes without a parent', reach=['loose']),
        run('c02_w', Q, 'every forest of the document root and 4 nodes, every single edit'),
        run('c02_t', T, 'every forest of the document root and 4 nodes, every history of 2 edits'),
        run('c02_big', Q, '4 shapes of a tree of 24 nodes, every node moved into any other or detached'),
        run('c02_far', Q, 'the same with 140 nodes, ' + FEW, **BIG),
        run('c02_fart', T, 'the same with 300 nodes, ' + FEW, **BIG),
    ]),
    'C03': dict(runs=[
        run('c03_q', Q, 'every tree of the root and 3 nodes, every start node, every interleaving of front and back steps', reach=['children', 'traverse']),
        run('c03_t', Q, 'every tree of the root and 4 nodes, every start node, every interleaving of front and back steps', reach=['children', 'traverse']),
        run('c03_a', Q, 'every tree of the root and 4 nodes, each an SVG element or not, every start node'),
        run('c03_at', Q, 'every tree of the root and 5 nodes, each an SVG element or not, every start node'),
        run('c03_big', Q, '4 shapes of a tree of 24 nodes, every start node, any split between front and back steps, or in turns'),
        run('c03_far', Q, 'the same with 140 nodes, start ' + FEW, **BIG),
        run('c03_fart', T, 'the same with 300 nodes, start ' + FEW, **BIG),
    ]),
    'C04': dict(runs=[
        run('c04_q', Q, 'every history of 3 attribute operations on 3 elements and 2 names', reach=['linked', 'crosslink', 'plain', 'remove', 'if_none', 'link if_none']),
        run('c04_w', Q, 'every history of 2 attribute operations on 2 elements and 5 names (SVG and custom)', reach=['linked']),
        run('c04_t2', Q, 'every history of 3 attribute operations on 3 elements and 3 names (SVG and custom)'),
        run('c04_all', Q, 'every attribute id: every history of 2 operations (links, values, removal, refused links)'),
        run('c04_allt', Q, 'every attribute id: every history of 3 operations'),
        run('c04_t', T, 'every history of 4 attribute operations on 2 elements and 2 names'),
        run('c04_big', Q, '20 elements with up to 3 links each, spread or all to two of them, every single operation'),
        run('c04_far', Q, 'the same with 70 elements, ' + FEW, **BIG),
        run('c04_ids', Q, '3 elements without ids or with the same one, 2 targets (also with the same id), every history of 3 links and removals under 2 names'),
        run('c04_idst', T, 'the same with every history of 4'),
    ]),
    'C05': dict(runs=[
        run('c05_q', Q, '2 elements with arbitrary ids of at most 1 character, every history of 2 links with an id change in between, 5 names, 4 ways to give a link',
            reach=['linked', 'no id', 'crosslink', 'id changed', 'had a value']),
        run('c05_w', Q, '3 elements with arbitrary ids of at most 1 character, every history of 2 links with an id change in between, 2 names'),
        run('c05_i', Q, '2 elements with arbitrary ids of up to 2 ASCII characters, links both ways', reach=['linked', 'no id', 'crosslink']),
        run('c05_it', Q, '2 elements with arbitrary ids of up to 3 ASCII characters, links both ways', reach=['linked', 'no id', 'crosslink']),
        run('c04_all', Q, 'every attribute id: every history of 2 operations (links, values, removal, refused links)'),
        run('c05_t', T, '3 elements with arbitrary ids of at most 1 character, every history of 2 links, 5 names'),
        run('c05_t2', T, '2 elements with arbitrary ids of at most 1 character, every history of 3 links, 3 names'),
        run('c05_big', Q, 'two ids of 7 to 100 characters that differ in any one character or in length; links both ways', reach=['same', 'different']),
        run('c05_many', Q, '20 to 59 elements link to one, any of them or another one is linked from there'),
        run('c05_far', Q, 'the same with 129, 257 or 300 elements, ' + FEW, **BIG),
        run('c05_elem', Q, 'a link, a link back and a link to itself between every two elements, 3 names'),
        run('c05_word', Q, 'two ids of 1 to 24 arbitrary ASCII characters each', reach=['same', 'different']),
    ], assumptions=['both ends of a link are elements']),
    'C06': dict(runs=[
        run('c06_q', Q, 'every forest of the root and 3 nodes, every 2 links of 3 names, every removed node, removed twice'),
        run('c06_w', Q, 'every tree of the root and 4 nodes, every link of 3 names, every removed node'),
        run('c06_v', Q, 'every tree of the root and 4 nodes, every 2 links of 1 name, every removed node'),
        run('c06_t', Q, 'every tree of the root and 4 nodes, every 2 links of 3 names, every removed node'),
        run('c06_f', Q, '3 sibling elements, every 3 links of 3 names, removal of a linked element'),
        run('c06_f2', Q, '4 sibling elements, every 3 links of 2 names, removal of a linked element'),
        run('c06_t2', Q, 'every tree of the root and 3 nodes, every 3 links of 3 names, every removed node'),
        run('c06_big', Q, '4 shapes of a tree of 16 elements with up to 3 links each, every node removed, twice, with a new node in between'),
        run('c06_far', Q, 'the same with 130 elements, ' + FEW, **BIG),
        run('c06_kind', Q, 'every forest of the root and 3 nodes of 4 kinds (SVG and custom elements, texts, comments) with every link, every node removed'),
        run('c06_kindt', T, 'the same with 4 nodes'),
        run('c06_elem', Q, 'every element with links from, to and inside of it, removed or drained next to 8 others', reach=['drained']),
    ]),
    'C07': dict(runs=[
        run('c07_q', Q, 'every history of 3 attribute operations over 2 SVG and 2 arbitrary one-byte custom names, arbitrary one-byte values', reach=['replaced', 'kept', 'removed', 'in place']),
        run('c07_w', Q, 'every history of 2 attribute operations over 2 SVG and 2 arbitrary two-byte custom names'),
        run('c07_t', Q, 'every history of 4 attribute operations over 2 SVG and 2 arbitrary one-byte custom names'),
        run('c07_big', Q, 'an element with 15 to 48 attributes, SVG and custom, any of them set, removed, kept or changed'),
        run('c07_word', Q, 'two custom names of 1 to 24 arbitrary ASCII characters each next to an SVG attribute', reach=['same', 'different']),
        run('c07_ea', Q, 'every attribute on every element: set, kept, replaced, removed'),
    ]),
    'C08': dict(runs=[
        run('c08_q', Q, 'every forest of the root and 3 nodes (SVG and custom elements, texts, comments), every link, every copied node, shallow and deep', reach=['element copy', 'text copy']),
        run('c08_w', Q, 'every forest of the root and 4 nodes without links'),
        run('c08_t', T, 'every forest of the root and 4 nodes with every link'),
        run('c08_t2', T, 'every forest of the root and 3 nodes with every 2 links'),
        run('c08_ren', Q, 'every forest of the root and 2 nodes with every 2 links, any element renamed afterwards (also to nothing)', reach=['renamed']),
        run('c08_rent', T, 'every forest of the root and 3 nodes with every link, any element renamed afterwards', reach=['renamed']),
        run('c08_big', Q, '4 shapes of a tree of 16 elements with up to 3 links each, any node copied alone or with its subtree'),
        run('c08_far', Q, 'the same with 140 elements, ' + FEW, **BIG),
        run('c08_word', Q, 'nodes with texts, names, ids and values of up to 3 arbitrary ASCII characters'),
        run('c08_elem', Q, 'every element with every attribute, numbers, texts and links'),
    ]),
    'C09': dict(runs=[
        run('c09_q', Q, 'every forest of 3 nodes, 1 link, 1 edit, then removal, copy or drain of any node, both drop orders', reach=['document first', 'handles first']),
        run('c09_w', Q, 'every forest of 3 nodes, 2 links, then removal, copy or drain of any node, both drop orders'),
        run('c09_p', Q, 'parsing a template with 3 arbitrary references and 4 endings, well-formed and not', reach=['ok', 'err']),
        run('c09_tree', Q, 'parsing every forest of 3 nodes of 7 kinds', reach=['ok']),
        run('c09_lnk', Q, 'parsing 2 elements with arbitrary ids and references of 7 kinds, which may be style elements or inside of one', reach=['ok']),
        run('c09_many', Q, 'parsing 2 elements with up to 3 references each', reach=['ok']),
        run('c09_casc', Q, 'parsing 2 style elements, attributes and style attributes', reach=['ok']),
        run('c09_txt', Q, 'parsing 3 pieces of text with any xml:space', reach=['ok']),
        run('c09_txe', Q, 'parsing 3 pieces of text with 5 kinds of elements', reach=['ok']),
        run('c09_t', T, 'every forest of 4 nodes, 1 link, 1 edit, then removal, copy or drain'),
        run('c09_t2', T, 'every forest of 3 nodes, 2 links, 1 edit, then removal, copy or drain'),
        run('c09_big', Q, '4 shapes of a tree of 14 linked elements: removal, copies, detached nodes, drain; dropped in either order'),
        run('c09_far', Q, 'the same with 140 elements, ' + FEW, **BIG),
        run('c09_bign', Q, 'parsed documents of 20 elements, nested or not, one of another kind', reach=['ok']),
        run('c09_bigr', Q, 'parsed documents of 10 elements with any link between them', reach=['ok']),
        run('c09_kind', Q, 'every forest of the root and 3 nodes of 4 kinds with every link; removal, copy, drain or change of any node, both drop orders', reach=['document first', 'handles first']),
    ]),
    'C10': dict(runs=[
        run('c10_xml', Q, 'any 4 bytes of 12 markup characters inside the svg element'),
        run('c10_raw', Q, 'any 4 bytes of 15 markup characters as the whole document'),
        run('c10_pro', Q, 'any 3 bytes of 9 markup characters before the svg element'),
        run('c10_att', Q, 'any 3 bytes of 9 characters inside an attribute list'),
        run('c10_css', Q, 'any 4 bytes of 12 characters as a style sheet'),
        run('c10_css2', Q, 'any 3 bytes of 13 characters inside a declaration of a style sheet'),
        run('c10_sty', Q, 'any 4 bytes of 13 characters inside a style attribute'),
        run('c10_mb', Q, '34 places (texts, names, ids, references, values, CSS, comments) with a long run of characters of 2, 3 or 4 bytes at any alignment'),
        run('c10_utf', Q, '2 arbitrary bytes (valid UTF-8) at 8 places', reach=['ok', 'err']),
        run('c10_ent', Q, 'an entity of 3 arbitrary characters of 10, used at 4 places', reach=['ok', 'err']),
        run('c10_entt', Q, 'an entity of 4 arbitrary characters of 10, used at 4 places', reach=['ok', 'err']),
        run('c10_root', Q, '12 documents with and without an svg element, closed or not, with 6 beginnings and 4 endings', reach=['ok', 'err']),
        run('c10_tree', Q, 'every forest of 3 nodes of 12 kinds', reach=['ok']),
        run('c10_cont', Q, 'every element with every 2 of 7 kinds of content', reach=['ok']),
        run('c10_mix', Q, '3 attributes of 15 kinds in any order', reach=['ok']),
        run('c10_lnk', Q, '3 elements with arbitrary ids and references of 2 kinds', reach=['ok', 'link']),
        run('c10_lnk2', Q, '2 elements with arbitrary ids and references of 7 kinds, which may be style elements or inside of one', reach=['ok', 'link']),
        run('c10_many', Q, '2 elements with up to 3 references each', reach=['ok', 'link']),
        run('c10_casc', Q, 'fill from attribute, style attribute and 2 rules of 5 selectors, 5 values', reach=['ok', 'link']),
        run('c10_casd', Q, '2 declarations in a rule and in the style attribute', reach=['ok', 'link']),
        run('c10_mark', Q, 'the marker shorthand next to longhands', reach=['ok', 'link']),
        run('c10_tab', Q, 'every SVG attribute with each of 50+ value texts', reach=['ok', 'link']),
        run('c10_decl', Q, 'every SVG attribute with each value text from the style attribute and from a style sheet', reach=['ok', 'link']),
        run('c10_num', Q, 'any 3 characters of 12 as the value of one attribute of each numeric kind', reach=['ok']),
        run('c10_misc', Q, 'any 3 characters of 10 as the value of one attribute of each other kind', reach=['ok']),
        run('c10_url', Q, 'any 3 characters of 5 inside of url()', reach=['ok', 'link']),
        run('c10_pts', Q, 'any 3 characters of 9 in transforms, points, paths and view boxes', reach=['ok']),
        run('c10_chr', Q, '2 arbitrary characters and references in a text', reach=['ok']),
        run('c10_strs', Q, '2 arbitrary characters in an id and 4 string attributes', reach=['ok']),
        run('c10_nest', Q, 'nested text elements with 1-3 pieces, title and desc', reach=['ok']),
        run('c10_txt', Q, '3 pieces of text of 1-2 arbitrary characters, tspan and comments', reach=['ok']),
        run('c10_txm', Q, '3 pieces of text with any xml:space', reach=['ok']),
        run('c10_txe', Q, '4 pieces with tspan, textPath, a, tref and altGlyph elements', reach=['ok']),
        run('c10_txw', Q, '2 pieces incl. non-ASCII, CRLF and character references', reach=['ok']),
        run('c10_two', Q, '2 text elements', reach=['ok']),
        run('c10_utft', T, '3 arbitrary bytes (valid UTF-8) at 8 places', reach=['ok', 'err']),
        run('c10_bign', Q, 'parsed documents of 40 elements, nested or not, any one of another kind', reach=['ok']),
        run('c10_far', Q, 'the same with 140 elements, ' + FEW, reach=['ok'], **BIG),
        run('c10_biga', Q, 'an element with 60 attributes, one foreign, unknown or repeated', reach=['ok']),
        run('c10_bigr', Q, 'parsed documents of 14 elements with any link between them', reach=['ok', 'link']),
        run('c10_bigt', Q, 'a text with 20 parts, one special, side by side or nested', reach=['ok']),
        run('c10_bigc', T, '40 rules, declarations or style elements; one more specific, one invalid', reach=['ok']),
        run('c10_bigv', Q, 'values of 60 items, one of them preceded by an arbitrary character of a set', reach=['ok']),
        run('c10_word', Q, 'every word of 1, 5 or 12 letters at 25 places', reach=['ok']),
    ]),
    'C11': dict(runs=[
        run('c11_q', Q, 'every forest of 3 nodes below svg, each of 12 kinds (SVG, unknown, foreign prefix/default namespace, prefixed SVG, style, text elements, wrong case, comment, PI, text, CDATA), default namespace'),
        run('c11_p', Q, 'the same with all SVG elements prefixed'),
        run('c11_w', Q, 'every forest of 4 nodes of 6 kinds'),
        run('c11_tag', Q, 'every tag name of 1-2 characters over letters and digits', reach=['known', 'unknown']),
        run('c11_pre', Q, 'every SVG attribute under no prefix, xlink, xml, svg, a foreign one and another prefix for xlink'),
        run('c11_attr', Q, 'every attribute name of 1-2 characters', reach=['known', 'unknown']),
        run('c11_mix', Q, '3 attributes of 15 kinds (SVG, foreign, unknown, prefixed, id, class, style, invalid) in any order'),
        run('c11_par', Q, 'every element at 3 places with each of 7 kinds of content'),
        run('c11_par2', Q, 'every element with every 2 of 7 kinds of content'),
        run('c11_in', Q, 'every element inside of every other one'),
        run('c11_mixt', Q, '4 attributes of 15 kinds in any order'),
        run('c11_part', T, 'every element at 2 places with every 3 of 7 kinds of content'),
        run('c11_t', T, 'every forest of 5 nodes of 5 kinds, prefixed'),
        run('c11_t2', T, 'every forest of 4 nodes of 12 kinds'),
        run('c11_t3', T, 'every forest of 4 nodes of 12 kinds, prefixed'),
        run('c11_bign', Q, 'documents of 24 elements, nested or not, any one of another kind'),
        run('c11_far', Q, 'the same with 140 elements, ' + FEW, **BIG),
        run('c11_biga', Q, 'an element with 40 attributes, any one foreign, unknown or repeated'),
        run('c11_fara', Q, 'the same with 150 attributes, ' + FEW, **BIG),
        run('c11_ns', Q, 'a prefixed element or attribute with an arbitrary namespace of 1, 3, 26 to 29 or 36 characters', reach=['kept', 'dropped']),
        run('c11_nse', Q, 'namespaces made from a known one by up to 3 arbitrary characters before or after it, or one less', reach=['kept', 'dropped']),
        run('c11_word', Q, 'comments and texts of 1 to 110 arbitrary characters without meaning in XML, at 5 places'),
        run('c11_wide', Q, 'every character of 2 to 4 bytes (2 in comments) at the ends and in the middle of texts, comments, ids and values'),
        run('c11_spec', Q, '16 characters with a special meaning at the same places'),
    ], assumptions=['no element has the prefix of a namespace that is the default one as well and a separate end tag (roxmltree 0.6 rejects it)']),
    'C12': dict(runs=[
        run('c12_q', Q, 'fill set by any subset of attribute, style attribute and 2 rules (6 selectors each), 3 values with an arbitrary digit', reach=['no value']),
        run('c12_s', Q, '2 rules out of 18 selectors each (type, class, id, attribute, combinators, compound), attribute and style attribute'),
        run('c12_w', Q, '2 style elements, the second one CSS or not, 4 selectors, 3 values'),
        run('c12_d', Q, '2 declarations in a rule and in the style attribute, 3 selectors, 4 values'),
        run('c12_all_q', Q, 'every presentation attribute and transform from all three sources, 6 texts each', reach=['identity']),
        run('c12_marker', Q, 'the marker shorthand next to a longhand from any source in any order'),
        run('c12_tr2', Q, 'every tree of 2 elements of 2 tags and 3 class lists, 2 rules of 14 selectors each, every element checked', reach=['styled', 'unstyled']),
        run('c12_tr3', Q, 'every tree of 3 elements of 2 tags and 3 class lists, every rule of 14 selectors, every element checked', reach=['styled', 'unstyled']),
        run('c12_name', Q, 'selectors by type, class, id and attribute of 2 to 5 arbitrary letters against an attribute of 5 arbitrary letters, spaces and hyphens on 4 elements', reach=['hit', 'miss']),
        run('c12_namet', Q, 'the same with 3 to 8 letters', reach=['hit', 'miss']),
        run('c12_non', Q, 'every other attribute and 8 more names as CSS properties'),
        run('c12_trt', T, 'every tree of 3 elements of 2 tags and 2 class lists, 2 rules of 14 selectors each'),
        run('c12_t', T, '2 rules of 10 selectors, 4 values'),
        run('c12_t2', T, '2 style elements, 5 selectors, 5 values'),
        run('c12_all_t', T, 'every presentation attribute and transform from all three sources, 12 texts each'),
        run('c12_big', Q, '24 rules, declarations, style properties or style elements; any one more specific, any one invalid'),
        run('c12_far', T, 'the same with 70, ' + FEW, **BIG),
        run('c12_type', Q, 'a style element with an arbitrary type of 1 to 110 letters and hyphens, with and without text/ in front', reach=['css', 'other']),
        run('c12_ea', Q, 'every attribute on every element from the style attribute and from a style sheet', reach=['value', 'absent']),
        run('c12_sib', Q, 'every 2 of 9 kinds of nodes (foreign and unknown ones included) before an element, 4 parents, 9 selectors', reach=['styled', 'unstyled']),
    ], assumptions=['!important is not part of the property (svgdom ignores it)']),
    'C13': dict(runs=[
        run('c13_q', Q, '3 elements in every nesting, each with an arbitrary id out of {none,a,b,c} and a reference of 2 kinds to a, b or c', reach=['linked', 'missing', 'circular']),
        run('c13_k', Q, '2 elements, 7 kinds of references (href, clip-path, fill and stroke with and without fallback)', reach=['linked', 'missing', 'circular']),
        run('c13_s', Q, '2 elements which may be style elements or inside of one'),
        run('c13_i', Q, 'ids and references of 1-2 arbitrary characters out of 7', reach=['same', 'different']),
        run('c13_it', Q, 'ids and references of 1-3 arbitrary characters out of 7', reach=['same', 'different']),
        run('c13_m', Q, '2 elements with up to 3 references each from attributes and CSS', reach=['linked', 'missing', 'circular']),
        run('c13_elem', Q, 'every element as the source and as the target of 5 kinds of references, before and after'),
        run('c13_all', Q, 'every attribute with 14 texts of references'),
        run('c13_mt', T, '3 elements with up to 3 references each', reach=['linked', 'missing', 'circular']),
        run('c13_t', T, '3 elements, 7 kinds of references'),
        run('c13_t2', Q, '3 elements which may be style elements or inside of one'),
        run('c13_t3', T, '4 elements, 1 kind of reference'),
        run('c13_big', Q, '14 elements, nested or not, any link between two of them, to itself or to a missing element', reach=['itself']),
        run('c13_far', Q, 'the same with 70 elements, ' + FEW, reach=['itself'], **BIG),
        run('c13_word', Q, 'ids and references of 1 to 10 arbitrary characters (printable, without <&\'"()#=)', reach=['same', 'different']),
        run('c13_bigi', Q, 'an id and a reference of 8 to 128 characters that differ in at most one', reach=['same', 'different']),
        run('c13_ea', Q, 'every link attribute on every element, before and after its target'),
        run('c13_wide', Q, 'ids with an arbitrary character of 2 to 4 bytes, 3 kinds of references'),
    ]),
    'C14': dict(runs=[
        run('c14_s', Q, '1-4 arbitrary characters (printable ASCII, tab, newline) in a text element', reach=['a space between words']),
        run('c14_d', Q, '3 pieces (texts of 1-2 arbitrary characters, tspan start and end, comments)', reach=['a space between words']),
        run('c14_d4', Q, '4 pieces, texts of 1 arbitrary character'),
        run('c14_dn', Q, '6 pieces, texts of 1 character (space or not)', reach=['a space between words']),
        run('c14_dn2', Q, '4 pieces, texts of 1-3 characters (space or not)'),
        run('c14_dw', Q, '2 pieces, texts of 1-2 characters incl. non-ASCII, CRLF and character references'),
        run('c14_p', Q, 'preserve on svg, g or text: 3 pieces, texts of 1-2 arbitrary characters', reach=['preserve']),
        run('c14_pn', Q, 'preserve: 5 pieces, texts of 1-2 characters (space or not)'),
        run('c14_pw', Q, 'preserve: 2 pieces incl. non-ASCII, CRLF and character references'),
        run('c14_m', Q, 'any xml:space on any element: 3 pieces, texts of 1-2 arbitrary characters', reach=['mixed']),
        run('c14_mn', Q, 'any xml:space on any element: 4 pieces, texts of 1 character (space or not)'),
        run('c14_mn2', Q, 'any xml:space on any element: 3 pieces, texts of 1-4 characters (space or not)', reach=['inside']),
        run('c14_t2', Q, '7 pieces, texts of 1 character (space or not)'),
        run('c14_e', Q, '4 pieces with tspan, textPath, a, tref and altGlyph elements'),
        run('c14_en', Q, '5 pieces with tspan, textPath and a elements', reach=['a space between words']),
        run('c14_ep', Q, 'preserve: 3 pieces with tspan, textPath, a, tref and altGlyph elements', reach=['preserve']),
        run('c14_em', Q, 'any xml:space: 3 pieces with tspan, textPath and a elements', reach=['mixed']),
        run('c14_two', Q, '2 text elements with or without preserve, texts of 1-3 characters'),
        run('c14_twot', T, '2 text elements with or without preserve, texts of 1-4 characters'),
        run('c14_u', Q, '1-3 characters incl. Unicode spaces and characters of 4 bytes', reach=['a space between words']),
        run('c14_ud', Q, '3 pieces incl. Unicode spaces'),
        run('c14_up', Q, 'preserve: 1-3 characters incl. Unicode spaces'),
        run('c14_et', T, '6 pieces with tspan, textPath and a elements'),
        run('c14_t1', T, '1-6 arbitrary characters'),
        run('c14_t3', T, '5 pieces, texts of 1-2 characters (space or not)'),
        run('c14_t4', T, '3 pieces incl. non-ASCII, CRLF and character references'),
        run('c14_t5', T, 'preserve: 6 pieces'),
        run('c14_t6', T, 'any xml:space: 5 pieces'),
        run('c14_t7', T, 'any xml:space: 4 pieces, texts of 1-3 characters'),
        run('c14_big', Q, 'a text with 14 parts, side by side or nested; any one is blank, short, without spaces or 70 characters long', reach=['default', 'preserve', 'a space between words']),
        run('c14_far', Q, 'the same with 70 parts, a part of 300 characters, ' + FEW, reach=['default', 'preserve', 'a space between words'], **BIG),
        run('c14_bigp', Q, 'xml:space on any two of 12 nested elements'),
        run('c14_farp', Q, 'xml:space on two of 70 nested elements, ' + FEW, **BIG),
        run('c14_space', Q, 'xml:space with an arbitrary value of up to 12 characters on any of 4 elements', reach=['preserve']),
        run('c14_word', Q, '3 words of 1 to 15 arbitrary characters with 5 kinds of white space between them', reach=['preserve', 'default']),
        run('c14_any', Q, 'every element inside of a text with 4 texts before, in and after it', reach=['default', 'a space between words']),
        run('c14_anyp', Q, 'the same with preserve', reach=['preserve']),
        run('c14_out', Q, 'a text inside of every other element with any xml:space'),
        run('c14_wide', Q, 'an arbitrary character of 2 to 4 bytes between white space and others', reach=['default', 'preserve']),
    ], assumptions=['text inside of text elements; white space of other elements is not significant']),
    'C15': dict(runs=[
        run('c15_tab', Q, 'every SVG attribute with each of 50+ value texts', reach=['value', 'absent']),
        run('c15_host', Q, 'every SVG attribute on elements with their own rules'),
        run('c15_elem', Q, 'every element with attributes that depend on it'),
        run('c15_css', Q, 'every SVG attribute with each value text from the style attribute and from a style sheet'),
        run('c15_num', Q, 'any 3 characters of 12 as the value of one attribute of each numeric kind', reach=['value', 'absent']),
        run('c15_numt', Q, 'any 4 characters of 11 as the value of one attribute of each numeric kind'),
        run('c15_misc', Q, 'any 3 characters of 10 as the value of one attribute of each other kind', reach=['value', 'absent']),
        run('c15_word', Q, 'every word of 1 to 20 letters and hyphens as the value of every SVG attribute of a kind other than colour', reach=['value', 'absent']),
        run('c15_wcss', Q, 'every word of 1 to 14 letters with at most one hyphen as the value of every SVG attribute of a kind other than colour, from the style attribute and a style sheet', reach=['value', 'absent']),
        run('c15_opac', Q, 'any 4 characters of 8 as an opacity or coefficient', reach=['value', 'absent']),
        run('c15_col', Q, 'any 3 characters of 9 after #', reach=['value', 'absent']),
        run('c15_url', Q, 'any 3 characters of 5 inside of url()'),
        run('c15_ts', Q, 'any 3 characters of 8 inside of scale()'),
        run('c15_pts', Q, 'any 4 characters of 7 in path data and points'),
        run('c15_big', Q, 'values of 30 items of 7 attributes, any one of them preceded by a character of a set', reach=['absent', 'value']),
        run('c15_far', Q, 'the same with 130 items, ' + FEW, reach=['absent', 'value'], **BIG),
        run('c15_pad', Q, '13 attributes with 1 to 64 spaces before or after the value', reach=['value']),
        run('c15_ea', Q, 'every attribute on every element with 4 texts', reach=['value', 'absent']),
    ], assumptions=['the grammars of single values are those of svgtypes, which the oracle calls on the same text; svgdom decides which one applies, and clamping, trimming and rejection']),
    'C16': dict(runs=[
        run('c16_str', Q, '2 arbitrary characters (printable, non-ASCII, any of the special ones) in an id and 4 string attributes, 4 option sets', reach=['written']),
        run('c16_chr', Q, '2 arbitrary characters in a text', reach=['written']),
        run('c16_txt', Q, '3 pieces of text, tspan and comments, default white space'),
        run('c16_txp', Q, '3 pieces with preserve'),
        run('c16_txm', Q, '3 pieces with any xml:space on any element'),
        run('c16_txt2', Q, '5 pieces, default white space'),
        run('c16_nest', Q, 'nested text elements with 1-3 pieces, title and desc'),
        run('c16_lnk', Q, '2 elements with arbitrary ids and references of 7 kinds'),
        run('c16_tree', Q, 'every forest of 3 nodes of 6 kinds'),
        run('c16_tab', Q, 'every SVG attribute with each of 50+ value texts'),
        run('c16_mb', Q, 'long runs of characters of 2, 3 or 4 bytes in texts, ids, references, values and comments'),
        run('c16_api', Q, '3 elements with arbitrary ids made by the API, a link, then renaming, moving, removing or copying'),
        run('c16_api2', Q, '2 elements with arbitrary special ids made by the API, 2 links, then an edit'),
        run('c16_strt', T, '3 arbitrary characters in an id and 4 string attributes'),
        run('c16_chrt', T, '3 arbitrary characters in a text'),
        run('c16_txp2', T, '4 pieces with preserve'),
        run('c16_txm2', T, '4 pieces with any xml:space'),
        run('c16_lnkt', T, '3 elements with arbitrary ids and references of 2 kinds'),
        run('c16_treet', T, 'every forest of 4 nodes of 6 kinds'),
        run('c16_apit', T, '3 elements, 2 links, 1 edit'),
        run('c16_apit2', T, '3 elements, 1 link, 2 edits'),
        run('c16_bign', Q, 'documents of 16 elements, nested or not, any one of another kind'),
        run('c16_far', T, 'the same with 70 elements, ' + FEW, **BIG),
        run('c16_biga', Q, 'an element with 30 attributes, any one foreign, unknown or repeated'),
        run('c16_bigr', Q, '8 elements, nested or not, any link between two of them'),
        run('c16_bigt', Q, 'a text with 8 parts, any one special'),
        run('c16_ent', Q, 'an id and 4 string attributes with up to 3 pieces of what looks like a reference', reach=['written']),
        run('c16_entt', T, 'the same with up to 4 pieces', reach=['written']),
        run('c16_word', Q, 'every SVG attribute of a kind other than colour with every word of 2, 7, 16 or 40 letters and hyphens'),
        run('c16_ea', Q, 'every attribute on every element, 2 option sets'),
        run('c16_cont', Q, 'every element with up to 2 of 5 kinds of content'),
        run('c16_long', Q, 'ids and values of 17 to 258 characters with an arbitrary character at any of 12 places'),
        run('c16_longt', Q, 'texts of 17 to 258 characters with an arbitrary character at any of 12 places'),
        run('c16_wide', Q, 'ids, values and texts with an arbitrary character of 2 or 3 bytes'),
    ], assumptions=['text outside of text elements is compared without indents only', 'ids used by references contain no white space and no closing bracket',
                    'numbers are those of the tables: number formatting is left to svgtypes (11 digits)']),
    'C17': dict(runs=[
        run('c17_str', Q, 'an arbitrary character in an id and 4 string attributes, 6 option sets'),
        run('c17_strt', Q, '2 arbitrary characters in an id and 4 string attributes'),
        run('c17_txt', Q, '3 pieces of text with any xml:space'),
        run('c17_nest', Q, 'nested text elements with 1-3 pieces, title and desc'),
        run('c17_lnk', Q, '2 elements with arbitrary ids and references'),
        run('c17_tree', Q, 'every forest of 3 nodes of 6 kinds'),
        run('c17_tab', Q, 'every SVG attribute with each of 50+ value texts'),
        run('c17_ord', Q, '4 attributes out of 8 (SVG, custom, id) set in any order'),
        run('c17_api', Q, '2 elements made by the API, a link and an edit'),
        run('c17_any', Q, 'every tree of 3 nodes of 5 types, with or without an svg element'),
        run('c17_near', Q, 'every attribute next to its neighbours and others in the canonical order, set in both orders'),
        run('c17_href', Q, 'SVG and custom elements: every tree of 3 elements with a reference on any of them, the svg element included'),
        run('c17_opt', Q, 'every combination of indents (8), attribute indents (8) and quotes for every forest of 2 nodes of 4 kinds'),
        run('c17_opt2', Q, 'every combination of indents, attribute indents and quotes for 3 pieces of text'),
        run('c17_opt3', Q, 'every combination of indents, attribute indents and quotes for 2 elements with references'),
        run('c17_hreft', Q, 'every tree of 4 elements with a reference on any of them'),
        run('c17_mb', Q, 'long runs of characters of 2, 3 or 4 bytes in texts, ids, references, values and comments'),
        run('c17_val', Q, 'value notations: colours, numbers, lists, transforms, paths'),
        run('c17_anyt', Q, 'every tree of 4 nodes of 5 types, with or without an svg element'),
        run('c17_ord2', T, 'every pair of SVG attributes in both orders'),
        run('c17_txtt', T, '4 pieces of text'),
        run('c17_treet', T, 'every forest of 4 nodes of 5 kinds'),
        run('c17_ordt', T, '5 attributes out of 8 set in any order'),
        run('c17_bign', Q, 'documents of 16 elements, nested or not, any one of another kind'),
        run('c17_far', T, 'the same with 70 elements, ' + FEW, **BIG),
        run('c17_biga', Q, 'an element with 30 attributes, any one foreign, unknown or repeated'),
        run('c17_bigr', Q, '8 elements, nested or not, any link between two of them'),
        run('c17_bigt', Q, 'a text with 8 parts, any one special'),
        run('c17_word', Q, 'every SVG attribute of a kind other than colour with every word of 2, 7, 16 or 40 letters and hyphens'),
        run('c17_cust', Q, 'an element with an arbitrary name of 1 to 9 printable characters, an attribute with such a name, values of up to 8 arbitrary characters'),
        run('c17_ea', Q, 'every attribute on every element, 2 option sets'),
        run('c17_cont', Q, 'every element with up to 2 of 5 kinds of content'),
        run('c17_long', Q, 'ids and values of 17 to 258 characters with an arbitrary character at any of 12 places'),
        run('c17_wide', Q, 'ids, values, texts and comments with an arbitrary character of 2 to 4 bytes'),
        run('c17_typed', Q, 'every kind of value under SVG and custom names, 6 option sets'),
    ]),
    'C18': dict(runs=[
        run('c18_e', Q, 'every element id'),
        run('c18_a', Q, 'every attribute id'),
        run('c18_aa', Q, 'every pair of attribute ids'),
        run('c18_ne', Q, 'every element name with one byte replaced by an arbitrary one, added or removed'),
        run('c18_na', Q, 'every attribute name with one byte replaced by an arbitrary one, added or removed'),
        run('c18_se', Q, 'every string of up to 2 arbitrary bytes as an element name'),
        run('c18_sa', Q, 'every string of up to 2 arbitrary bytes as an attribute name'),
        run('c18_de', Q, 'every element name with each of 22 prefixes and suffixes'),
        run('c18_da', Q, 'every attribute name with each of 22 prefixes and suffixes'),
        run('c18_pe', Q, 'every pair of element names joined'),
        run('c18_te', T, 'every string of up to 3 arbitrary bytes as an element name'),
        run('c18_ta', T, 'every string of up to 3 arbitrary bytes as an attribute name'),
        run('c18_bige', Q, 'every element name with 4 to 256 characters before or after it'),
        run('c18_biga', Q, 'every attribute name with 4 to 256 characters before or after it'),
    ]),
    'C19': dict(runs=[
        run('c19_e', Q, 'every element id, every query; custom elements, texts, comments, root'),
        run('c19_a', Q, 'every attribute id, every query; custom attributes'),
        run('c19_v', Q, 'every kind of attribute value, every query'),
    ]),
    'C20': dict(runs=[
        run('c20', Q, 'every attribute id'),
    ]),
    'C21': dict(runs=[
        run('c21_q', Q, 'every forest of the root and 4 nodes, every start node, every set of matching nodes'),
        run('c21_w', Q, 'every forest of the root and 3 nodes with every link, every start node, every set of matching nodes'),
        run('c21_t', Q, 'every forest of the root and 5 nodes, every start node, every set of matching nodes'),
        run('c21_t2', T, 'every forest of the root and 4 nodes with every link, every start node, every set of matching nodes'),
        run('c21_big', Q, '4 shapes of a tree of 16 linked elements, any two of them or every n-th one selected, 4 start nodes'),
        run('c21_far', T, 'the same with 70 elements, ' + FEW, **BIG),
        run('c21_kind', Q, 'every forest of the root and 3 nodes of 4 kinds, every start node, every set of matching nodes'),
        run('c21_kindt', T, 'the same with 4 nodes'),
    ]),
    'C22': dict(runs=[
        run('c22_q', Q, '2 nodes of any kind with arbitrary one-byte names and texts, every history of 2 changes (ids and texts of up to 2 ASCII characters, names, moves)', reach=['id', 'text', 'tag']),
        run('c22_w', Q, '3 nodes of any kind, every single change', reach=['id', 'text', 'tag']),
        run('c22_t', Q, '1 node of any kind, every history of 3 changes', reach=['id', 'text', 'tag']),
        run('c22_tag', Q, 'every pair of element ids: created with one, renamed to the other'),
        run('c22_svg', Q, 'up to 4 nodes of 7 kinds under the root', reach=['found', 'none']),
        run('c22_word', Q, 'names, ids, texts and comments of 1 to 12 arbitrary ASCII characters, changed to others', reach=['same', 'different']),
    ]),
    'C23': dict(runs=[
        run('c23_val', Q, 'a value of each kind (strings of up to 2 arbitrary ASCII characters, arbitrary ids and colour bytes) under an SVG or arbitrary custom name'),
        run('c23_name', Q, 'every attribute id'),
        run('c23_tag', Q, 'every element id'),
        run('c23_q', Q, 'an element with an arbitrary id of up to 2 characters, up to 2 attributes of 6 kinds, up to 1 user', reach=['used']),
        run('c23_t', Q, 'an element with an arbitrary id of up to 2 characters, up to 3 attributes of 6 kinds, up to 2 users', reach=['used']),
        run('c23_big', Q, 'an element with 19 to 79 attributes and as many users'),
        run('c23_far', Q, 'the same with 127 to 300 attributes and users', **BIG),
        run('c23_long', Q, 'texts, comments, ids, names and values of 15 to 4097 characters, 3 places with an arbitrary one', **BIG),
        run('c23_other', Q, 'comments and texts of up to 3 arbitrary ASCII characters, the root'),
        run('c23_doc', Q, 'every document of 3 nodes of 5 kinds'),
    ]),
    'C24': dict(runs=[
        run('c24_val', Q, 'every convertible type (boundary numbers, every length unit, arbitrary strings of up to 2 characters, arbitrary colours), SVG and custom name, 3 ways to set it', reach=['converted']),
        run('c24_link', Q, 'a node with every fallback under every attribute id', reach=['paint']),
        run('c24_cust', Q, 'arbitrary custom names of 1 to 3 ASCII characters, values of up to 3'),
        run('c24_word', Q, 'custom names of 1 to 12 arbitrary ASCII characters, texts of up to 12, 8 attributes, 3 ways to set them'),
    ]),
    'C25': dict(runs=[
        run('c25_self', Q, 'every forest of the root and 3 nodes, every node, 4 edits', reach=['panicked as announced']),
        run('c25_selft', Q, 'every forest of the root and 4 nodes, every node, 4 edits', reach=['panicked as announced']),
        run('c25_name', Q, 'names of up to 3 arbitrary ASCII characters for new and existing elements', reach=['panicked as announced', 'named']),
        run('c25_kind', Q, 'every kind of node with texts of up to 2 arbitrary ASCII characters', reach=['panicked as announced', 'text']),
        run('c25_link', Q, '2 elements with arbitrary ids of up to 1 character, 4 names, with and without earlier links and values, 2 methods', reach=['panicked as announced', 'set', 'kept']),
        run('c25_linkt', Q, '3 elements with arbitrary ids of up to 2 characters, 6 names', reach=['panicked as announced', 'set', 'kept']),
        run('c25_say', Q, 'every error of the API'),
        run('c25_raw', Q, '4 arbitrary bytes out of 15 as a document', reach=['xml error']),
        run('c25_xml', Q, '4 arbitrary bytes out of 12 in an svg element', reach=['xml error', 'ok']),
        run('c25_pro', Q, '4 arbitrary bytes out of 9 in front of the svg element', reach=['xml error', 'ok']),
        run('c25_att', Q, '4 arbitrary bytes out of 10 in an attribute list', reach=['xml error', 'ok']),
        run('c25_sty', Q, '4 arbitrary bytes out of 12 in a style element', reach=['ok']),
        run('c25_root', Q, 'first elements with names of 1 to 3 characters out of 5, with and without a prefix, 5 namespace declarations, 5 prologues, 3 epilogues', reach=['xml error', 'ok', 'no svg']),
    ], assumptions=['roxmltree 0.6 is the reference for what is well-formed XML']),
}

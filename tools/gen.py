#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    assert len(statement.split('. ')) <= 3, id
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe or [], hook_needed=None)))


H, I, C = 'histories', 'inputs', 'configurations'

prop('C01', 'Tree edits put a node exactly where asked and nowhere else',
     'After any sequence of append, prepend, insert-before, insert-after and detach, every node has exactly one place: parent, first and last child, previous and next sibling and the child lists agree with one another and with what the edits asked for. An edit moves the given node together with its whole subtree and changes the position of no other node. No edit panics, as long as a node is not placed inside of itself and siblings are only added next to nodes that have a parent.',
     [H, I], 'every forest of nodes and every history of edits on it',
     'The tests perform a few edits on one fixed tree; relinking bugs show only for particular relations between the moved node and the target (adjacent siblings, only child, last child, already there).',
     ['src/tree.rs'], [('append, prepend, insert_before, insert_after, detach', 'src/tree.rs')],
     [('weak/strong sibling links', 'parent, first/last child, next/previous sibling', 'src/tree.rs NodeData')], ['navigation methods of a node', 'children iterators'])
prop('C02', 'Root, ancestors and tree queries follow the current position of a node',
     'For every node, at any time, the root is the top of the chain of parents, the ancestors are exactly that chain starting with the node itself, and the parents are the same chain without the node. This stays true for all nodes of a subtree after it is moved, detached or attached elsewhere.',
     [H, I], 'every forest and every history of moves, queried at every node',
     'No test asks for the root or the ancestors of a node inside a subtree which has been moved.',
     ['src/tree.rs', 'src/node.rs'], [('root, ancestors, parents', 'src/tree.rs, src/node.rs')], observe=['root(), ancestors(), parents_with_self()'])
prop('C03', 'Traversals visit every node exactly once, in document order',
     'Children, descendants and the opening/closing edge traversal yield exactly the nodes of the subtree, each once, in document order, and end. Taking items from the front and from the back in any mixture yields the same nodes, from both ends, with none lost, repeated or taken past the other end. The SVG-only variants yield exactly the SVG elements with their ids, in the same order.',
     [H, I], 'every forest, every starting node, every interleaving of front and back steps',
     'Tests iterate a few fixed trees from the front only; meeting-in-the-middle and leaf-start cases are not exercised.',
     ['src/tree.rs', 'src/node.rs', 'src/document.rs'], [('Traverse, Descendants, Children iterators', 'src/tree.rs'), ('SvgDescendants/FilterSvg', 'src/node.rs, src/tree.rs')], observe=['the items of the iterators'])
prop('C04', 'Back-references always mirror the links that exist',
     'At any time, the nodes a node lists as linked to it, and its uses count, are exactly the nodes which have an attribute linking to it, once per such attribute. This holds after any sequence of setting, replacing, conditionally setting and removing attributes, whatever the values before and after are.',
     [H, I], 'every history of attribute operations over nodes, attribute names (SVG and custom) and link and non-link values',
     'Tests look at single steps on two elements; stale or missing back-references come from combinations (replacing a link by another link to the same or another node, several attributes linking to one node, custom names).',
     ['src/node.rs'], [('set_attribute, remove_attribute, set_link_attribute', 'src/node.rs')],
     [('linked_nodes', 'who refers to this node', 'src/node.rs NodeKind data')], ['linked_nodes(), uses_count(), is_used()'])
prop('C05', 'Links are only created when valid, and a refused link changes nothing',
     'Linking an element to another one is refused with the matching error when the target has an empty id, or when source and target share one id or the target already links to the source, and is accepted otherwise. A refused operation leaves attributes and back-references exactly as they were. An accepted link is stored as a plain reference for href, as a paint for fill and stroke, and as a functional reference for every other attribute.',
     [H, I], 'every pair of nodes, every id, every attribute name, after every history of links',
     'Tests show one refused case per error and never check that nothing was changed.',
     ['src/node.rs'], [('set_attribute_checked, set_link_attribute', 'src/node.rs')], observe=['returned error, attributes, linked nodes'])
prop('C06', 'Removing a node leaves no trace of its subtree in the document',
     'After a node is removed, it and its whole subtree are unlinked from the document: no remaining node has an attribute that links into the removed subtree, and no remaining node lists a removed node as linked to it. Every removed node reports that it is detached and holds no links, and all other nodes, attributes, ids and links are untouched.',
     [H, I], 'every forest, every set of links across and inside the removed subtree, every removed node',
     'Tests remove single nodes with one or two SVG attributes; the removal of whole subtrees with links in all directions and custom names is not exercised.',
     ['src/document.rs', 'src/node.rs'], [('remove_node, _remove', 'src/document.rs')], observe=['attributes and linked nodes of all remaining nodes'])
prop('C07', 'The attributes of an element are a map with unique names',
     'Each name, SVG or custom, occurs at most once on an element, and a lookup by name yields the value last given to it. Attributes are listed in the order in which they were last set; setting only-if-missing never changes an existing value, removing affects the named attribute only. All query methods agree with one another.',
     [H, I], 'every history of attribute operations with equal and different, SVG and custom names',
     'Tests do a single set or remove; order and uniqueness after replacement are not checked.',
     ['src/node.rs', 'src/attributes.rs', 'src/attribute.rs'], [('Attributes::insert, remove, get', 'src/attributes.rs')], observe=['attributes()'])
prop('C08', 'Copies of nodes are faithful and independent',
     'A copy of a node has the same type, tag name, text and attributes in the same order, and, if deep, the same subtree; it has no id, no parent and nothing refers to it. Links held by copies lead to the same targets and are counted there. Creating or changing a copy does not change the original.',
     [H, I], 'every forest, every set of links, every copied node, shallow and deep',
     'The copy tests compare the text of one small document.',
     ['src/document.rs'], [('copy_node, copy_node_deep', 'src/document.rs')], observe=['the copy, the original, link targets'])
prop('C09', 'A dropped document frees all memory',
     'Once the document and all node handles are dropped, in any order, everything allocated for them is freed, whatever the nodes, cross-links and edits were. Node handles that outlive the document stay usable.',
     [H, I], 'every forest, set of links, edit, removal or copy, and every drop order; parsed documents too',
     'No test counts allocations; links between nodes are reference cycles which leak unless broken explicitly.',
     ['src/document.rs', 'src/tree.rs'], [('Drop for Document', 'src/document.rs'), ('weak and strong references', 'src/tree.rs')], observe=['allocations before and after'])
prop('C10', 'Parsing never panics and yields a well-formed document or an error',
     'For every input string parsing returns a document or an error; it never panics or hangs. A returned document has an svg element as its first element, contains only SVG elements and attributes, no style elements, no empty text nodes, and its links and back-references stay within the document and agree with each other. Malformed XML, or XML without an svg element, is an error.',
     [I], 'every byte string, in every position of a document (markup, prologue, attributes, CSS, text, entities, links)',
     'The tests parse a fixed list of documents.',
     ['src/parser/mod.rs', 'src/parser/text.rs', 'src/document.rs'], [('parse_svg', 'src/parser/mod.rs')], observe=['Document::from_str'])
prop('C11', 'Only SVG elements and attributes survive parsing, in document order',
     'Elements which are not in the SVG namespace or whose name is not an SVG element are dropped with their whole content; all others are kept in document order and nesting. Attributes are kept only if their name is an SVG attribute and they are not bound to a foreign namespace; only the SVG, XLink and XML namespaces are accepted besides none. Comments are kept, XML declarations, DTDs and processing instructions are not.',
     [I], 'every nesting of SVG, foreign and unknown elements and every attribute name and namespace',
     'Tests show one or two foreign elements at fixed places.',
     ['src/parser/mod.rs'], [('process_node, parse_tag_name, attribute name filter', 'src/parser/mod.rs')], observe=['the parsed tree'])
prop('C12', 'Style sheets and style attributes are resolved by priority',
     'For every presentation attribute the resolved value is that of the style attribute if it sets it, else that of the matching style sheet rule with the highest priority (more specific first, then later), else that of the plain attribute; within one declaration list the last one wins. Only presentation attributes and transform can be set from CSS, the marker shorthand of a style sheet sets all three marker attributes, and a value that cannot be parsed leaves the previous one in place (!important is ignored). Style elements, style and class attributes do not appear in the document.',
     [I, C], 'every combination of sources, selectors, specificities, declaration orders, values and properties',
     'Tests check single rules; the interplay of several sources for the same attribute, including references, is not covered.',
     ['src/parser/mod.rs'], [('resolve_css, parse_style_attribute, parse_svg_attribute_value', 'src/parser/mod.rs')], observe=['attributes of the parsed document'])
prop('C13', 'References are resolved to the right element or its fallback',
     'A reference becomes a link to the first element in the document with that id, wherever it is and in whatever order they appear. If there is no such element, a paint becomes its fallback, a fill without a fallback becomes none, and every other reference is kept as the text it was. A reference that would make an element refer to itself, or back to an element which already refers to it, is dropped.',
     [I], 'every arrangement of ids (missing, unique, duplicate, own, mutual) and references with and without fallback',
     'Tests use one or two fixed ids.',
     ['src/parser/mod.rs'], [('resolve_links', 'src/parser/mod.rs')], observe=['attribute values and linked nodes of the parsed document'])
prop('C14', 'Text keeps its characters and normalises only white space',
     'In text elements tabs and line breaks become spaces; without xml:space="preserve" runs of spaces, also across nested elements, shrink to one and spaces at the very start and end of the text element are dropped, with preserve (inherited from the nearest ancestor that sets it) nothing is dropped. Characters other than white space are never lost, added, reordered or moved to another element, white space appears only where it was, and words stay apart. No empty text nodes are left behind and xml:space attributes stay exactly where they were.',
     [I], 'every text content and every nesting of tspan elements with and without preserve',
     'Tests cover a list of fixed strings and nestings.',
     ['src/parser/text.rs'], [('process_text, prepare_text', 'src/parser/text.rs')], observe=['text nodes of the parsed document'])
prop('C15', 'Attribute values get the type that belongs to the attribute',
     'Each SVG attribute is parsed into the kind of value its grammar prescribes: lengths and numbers with their units and sign, colours, lists, transforms, paths, points, view boxes, aspect ratios, references, keywords. Opacities and arithmetic coefficients are clamped to 0..1, and a value that does not match the grammar of a typed attribute is dropped. The same text yields the same value whether it comes from the attribute, the style attribute or a style sheet.',
     [I], 'every SVG attribute and every value text',
     'Tests sample a dozen attributes with one value each.',
     ['src/parser/mod.rs', 'src/attribute_value.rs'], [('parse_svg_attribute_value', 'src/parser/mod.rs')], observe=['attribute values of the parsed document'])
prop('C16', 'Writing and parsing again restores the same document',
     'For every parsed document, and every SVG document made or changed through the API whose texts and values are as the parser would leave them, parsing the written text gives a document equal in structure, names, ids, attribute values, links and text, whatever the write options are (text outside of text elements only without indents). This includes ids and values with special characters, and links whose target was renamed, moved, removed or copied. Writing never panics.',
     [I, H, C], 'every document with arbitrary ids, values, text and links, under every write option',
     'Tests compare the output for fixed documents, none with special characters.',
     ['src/writer.rs', 'src/attribute_value.rs', 'src/parser/mod.rs'], [('write_dom, write_element, write_attribute_value', 'src/writer.rs')], observe=['to_string, from_str'])
prop('C17', 'Write options change the layout only; attribute order is canonical',
     'For a given document all write options produce the same sequence of elements, attributes and texts apart from the white space, quote style and number notation they are about. On every element the id comes first, then the SVG attributes in the fixed order of the attribute list, then custom ones as they were set. The SVG namespace is declared on the top-level svg element, and the XLink one if and only if it is used; no white space is added inside of text elements.',
     [C, I], 'every document and every combination of write options',
     'Tests use a fixed option set per document.',
     ['src/writer.rs', 'src/attribute_type.rs'], [('write_dom, write_attributes', 'src/writer.rs')], observe=['written text'])
prop('C18', 'Names and their ids correspond one to one',
     'Every element and attribute id has exactly one name, and looking that name up gives that id again. A string which is not such a name is never mistaken for one, whatever its length or case.',
     [I], 'every id and every string',
     'Tests touch a few dozen of about 300 names.',
     ['src/names.rs', 'src/element_type.rs'], [('ElementId/AttributeId from_str, as_str', 'src/names.rs')], observe=['from_str, as_str'])
prop('C19', 'Element and attribute classifications are right for every id',
     'For every element id the queries is_referenced, is_basic_shape, is_shape, is_container, is_text_content, is_text_content_child, is_graphic, is_gradient, is_paint_server and is_filter_primitive, and for every attribute id the queries is_presentation, is_inheritable, is_animation_event, is_graphical_event, is_document_event, is_conditional_processing, is_core, is_fill and is_stroke answer as the SVG 1.1 specification groups them. For nodes and attributes that are no SVG ones they answer no. The is_* queries for the kind of an attribute value answer yes for exactly that kind.',
     [I], 'every id, every query',
     'No test covers these tables.',
     ['src/element_type.rs', 'src/attribute_type.rs'], [('ElementType, AttributeType', 'src/element_type.rs, src/attribute_type.rs')], observe=['the is_* methods'])
prop('C20', 'Default values are those of the specification',
     'For every attribute id, the default value offered is the initial value the SVG 1.1 specification gives to that property, in the type of that attribute, and none is offered for attributes without one.',
     [I], 'every attribute id', 'Tests never ask for a default value.',
     ['src/attribute_value.rs', 'src/attribute.rs'], [('default_value', 'src/attribute.rs')], observe=['default values'])
prop('C21', 'Draining removes exactly the matching nodes, once each',
     'Draining a subtree by a condition removes every node below the start that meets it, together with what is under it, and nothing else, and returns the number of nodes it removed on its own account. The condition is asked about no node twice and about no node that is already gone.',
     [H, I], 'every forest, every start node, every set of matching nodes, with links between them',
     'One test drains one tree.',
     ['src/document.rs'], [('drain, _drain', 'src/document.rs')], observe=['remaining tree and returned count'])
prop('C22', 'A node is what it was created as and was last told to be',
     'Every node keeps its kind, and its tag name, id and text are those it was created with or was last given; all queries about them agree, a name given as text is never taken for an SVG one, and giving one node another name, id or text changes nothing else of it and no other node. A new node belongs to the document but is not part of its tree and has no attributes, id or uses; handles are equal if and only if they are of the same node. The svg element of a document is the first svg element directly under its root, if there is one.',
     [H, I], 'every kind of node, every name, id and text, every history of changes through any handle',
     'Tests read a node back right after it was parsed or created, never its neighbours, and only a few of the names.',
     ['src/node.rs', 'src/document.rs', 'src/name.rs', 'src/tree.rs'],
     [('node kind, tag name, id and text accessors', 'src/node.rs'), ('create_element, create_node, svg_element', 'src/document.rs')], observe=['the query methods of a node'])
prop('C23', 'Nodes, attributes, values and documents print as they are written',
     'An element prints as its start tag with the id first and then every attribute once, in order, as name=\'value\' with the prefixed name of xlink:href and xml:space, a comment as a comment, a text as itself and the root as nothing; an attribute value prints as the writer writes it by default. The debug form has the same content and also lists the ids of the elements that link to it. A document prints exactly as it is written with the default options; printing never panics.',
     [I, H], 'every node kind, name, id, list of attributes of any kind of value, and number of users',
     'Tests print documents; single nodes, attributes and most kinds of values are never printed.',
     ['src/writer.rs', 'src/attribute.rs', 'src/attributes.rs', 'src/attribute_value.rs', 'src/name.rs', 'src/document.rs'],
     [('Display and Debug of NodeData', 'src/writer.rs'), ('Display of Attribute, Attributes, AttributeValue, QName', 'src/attribute.rs, src/attributes.rs, src/attribute_value.rs, src/name.rs')],
     observe=['printed text'])
prop('C24', 'Values given through the API are stored as given',
     'Every Rust value that can be given for an attribute becomes the attribute value of the kind that belongs to its type, with exactly its content, under exactly the given name, SVG or custom, whichever way it is set. A node becomes the link that belongs to the attribute, keeping the given fallback for paints only.',
     [I], 'every convertible type and value, every attribute id, arbitrary custom names, every way of setting',
     'Tests set a few numbers and strings.',
     ['src/attribute_value.rs', 'src/attribute.rs', 'src/node.rs', 'src/name.rs'],
     [('From conversions', 'src/attribute_value.rs, src/node.rs, src/name.rs'), ('Attribute::new', 'src/attribute.rs')], observe=['attributes()'])
prop('C25', 'Requests that cannot be carried out are refused with the right reason',
     'Placing a node before, after or inside of itself, giving an element an empty name, creating an element or a second root as a plain node, and setting a link that is not allowed through a method that cannot report an error all stop with a panic instead of continuing with a damaged document; the same calls are never refused when they are valid. Parsing reports malformed XML with the error and position of the XML parser, XML whose first element is not an svg element as a document without one, and refuses nothing else. Errors print as what they mean.',
     [I], 'every node and edit, every name, every pair of ids with and without earlier links and values, arbitrary bytes as a document',
     'Tests provoke each error once and no panic at all.',
     ['src/tree.rs', 'src/node.rs', 'src/document.rs', 'src/error.rs', 'src/parser/mod.rs'],
     [('append, prepend, insert_before, insert_after', 'src/tree.rs'), ('set_tag_name, set_attribute, set_attribute_if_none', 'src/node.rs'), ('create_element, create_node', 'src/document.rs'), ('Error, ParserError', 'src/error.rs'), ('parse_svg, process_node', 'src/parser/mod.rs')],
     observe=['panics and returned errors'])

NA = []
EXTRA_NA = dict()
claimed = [p['id'] for p in P if p['id'] in PROPS]
for p in P:
    if p['id'] not in PROPS:
        NA.append(dict(property=p['id'], reason=EXTRA_NA.get(p['id'], 'check under construction')))
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
TECH = 'symbolic execution of the compiled LLVM IR, decided by the Z3 SMT solver (bounded)'
NOTE = ('Bounded: every value of the symbolic inputs within the bounds listed in the evidence. Trusts rustc, the symbolic executor in engine/ '
        '(cross-checked against native runs of sampled paths) and Z3.')
M = dict(version=1, setup_cmd='python3 check.py --setup',
         checks=[dict(property=c, quick_cmd='python3 check.py %s --tier quick' % c, thorough_cmd='python3 check.py %s --tier thorough' % c,
                      technique=TECH, level='model_checking', level_note=NOTE) for c in claimed],
         not_applicable=NA,
         notes='No hooks in /repo: the harnesses use the public API only. See DESIGN.md.')
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(claimed), 'claimed')

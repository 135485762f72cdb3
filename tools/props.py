import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=obs or [],hook_needed=None)))
def m(*a): return [dict(name=n,where=w) for n,w in a]
def s(*a): return [dict(name=n,meaning=x,where=w) for n,x,w in a]
p("C01","Tree stays consistent under any edit history",
 "After any sequence of node creation, append, prepend, insert-before, insert-after and detach calls in which no node is inserted into its own subtree, every node's parent, first/last child, previous/next sibling, has-parent/has-children answers and root describe exactly the ordered tree those calls build. Inserting a node that already sits somewhere moves it, with its whole subtree, to the new place (even when it is already next to that place), and detaching keeps its children. No such call panics.",
 ["histories"],"every finite sequence of edit calls over any number of nodes of every type, attached or not",
 "domapi tests run a dozen fixed sequences of one or two edits on 1-3 nodes; the guarantee is over all histories, including re-inserting adjacent nodes and moving subtrees.",
 ["src/tree.rs","src/node.rs"],m(("append/prepend/insert_before/insert_after detach the node first, then relink","src/tree.rs"),("detach repairs neighbours and parent ends","src/tree.rs")),
 s(("parent/first_child/last_child/previous_sibling/next_sibling","strong and weak Rc links of a node","src/tree.rs")),["Node::parent","Node::first_child","Node::last_child","Node::previous_sibling","Node::next_sibling","Node::root"])
p("C02","Iterators visit every node exactly once, in order, from both ends",
 "For every tree, ancestors, preceding siblings, following siblings, children, descendants and the start/end traversal yield exactly the nodes they are documented to cover, each once, in the documented order, starting with the node itself where documented. Consuming children or the traversal from the front, from the back or in any interleaving of both yields the same sequence split between the ends without loss or repetition, and once exhausted they keep returning nothing. Detaching the node that ancestors, siblings or children (from one end) has just yielded does not change what follows. The SVG-element filter and the document's svg-element lookup select exactly the matching nodes in that order.",
 ["inputs","histories"],"every tree shape, every start node, every interleaving of next and next_back",
 "Only whole-document descendants() and a few children() calls are exercised indirectly; no test calls next_back, let alone mixes ends.",
 ["src/tree.rs","src/node.rs","src/document.rs"],m(("Children/Traverse keep a front and a back cursor and a finished test","src/tree.rs"),("NodeEdge next_item/previous_item","src/tree.rs"),("FilterSvg","src/node.rs"),("svg_element","src/document.rs")))
p("C03","Reverse links list exactly the attributes that link to a node",
 "At every moment the linked-nodes list of an element contains each node exactly as many times as that node has attributes currently linking to the element, and nothing else; the usage count and the is-used answer agree with it. This holds after parsing and after any sequence of setting, overwriting (link by link, link by plain value, plain value by link), conditionally setting and removing attributes under SVG or custom names, of changing ids, and of copying and removing nodes.",
 ["histories","inputs"],"every history of attribute, copy and removal calls over any set of elements, starting from a new or a parsed document",
 "The linked_attributes tests check uses_count after one or two calls; the multiset equality over arbitrary histories (several links between the same pair, custom names, overwrites) is not sampled.",
 ["src/node.rs","src/document.rs","src/parser/mod.rs"],m(("set_link_attribute pushes one back reference per attribute","src/node.rs"),("remove_attribute drops one back reference","src/node.rs"),("_remove unlinks both directions","src/document.rs"),("resolve_links","src/parser/mod.rs")),
 s(("linked_nodes","back references of a node","src/lib.rs NodeData")),["Node::linked_nodes","Node::uses_count","Node::is_used"])
p("C04","Invalid links are refused and leave everything unchanged",
 "Setting a link to an element without an id fails with the must-have-an-id error; setting a link to an element that has the same id as the source, or that itself already links to the source through any attribute, fails with the crosslink error; every other link is accepted and stored as a link, paint or functional link according to the attribute name. A refused call changes no attribute, link or count of any node, whatever attribute it was aimed at.",
 ["histories"],"every state reachable by a history of link and attribute calls, every source, target and attribute name",
 "Tests trigger each error once on a fresh two-node document and do not look at the state afterwards.",
 ["src/node.rs"],m(("checks before any mutation in set_link_attribute","src/node.rs"),("kind chosen by attribute name","src/node.rs")),None,["Node::set_attribute_checked"])
p("C05","Removing nodes removes exactly them and every link touching them",
 "Removing a node takes it and its whole subtree out of the document, deletes every attribute in the document that linked to a removed node and releases every link a removed node held, and changes nothing else: the remaining nodes keep their order, their other attributes and their other links, and removed nodes report being detached. Draining below a node removes exactly the topmost descendants that satisfy the predicate, never the start node, and returns how many it removed. Removing an already removed node changes nothing in the document.",
 ["histories","inputs"],"every document state, every node to remove, every predicate and start node",
 "Tests remove or drain one or two nodes of a fixed document; nested matches, several links across the removed subtree's border, custom attribute names and repeated removals are not sampled.",
 ["src/document.rs","src/node.rs"],m(("_remove unlinks then recurses then detaches","src/document.rs"),("_drain visits siblings before removal","src/document.rs")),
 s(("storage/storage_key","membership of a node in a document","src/document.rs, src/lib.rs")),["Document::remove_node","Document::drain","Node::is_detached"])
p("C06","Node data and attributes read back exactly what was last written",
 "For any sequence of writes, an element's attribute set behaves as a map keyed by name: at most one attribute per SVG or custom name, holding the last value written with its type and value unchanged, present until removed, and never created or altered by a conditional set when one exists; iteration follows the order in which the attributes were last set. Lookup, containment, length, iteration, mutable access and the SVG-only filter agree with each other, and writing one node never changes another node's attributes. Id, tag name, text and node type likewise read back as last set.",
 ["histories"],"every sequence of attribute, id, tag-name and text writes with values of every type",
 "Tests write one or two attributes and read one back; uniqueness and agreement of all accessors over long histories and all value types are not sampled.",
 ["src/attributes.rs","src/attribute.rs","src/node.rs","src/attribute_value.rs","src/name.rs"],m(("insert replaces by name","src/attributes.rs"),("set_simple_attribute removes then inserts","src/node.rs")))
p("C07","Copies are equal, id-less and independent",
 "Copying an element whose link targets still have an id yields a new parentless element of the same document with the same tag name and the same attributes, typed values and link targets included, but without id; copying a text or comment node yields the same text; a deep copy repeats this for the whole subtree in order, while a shallow copy has no children. The copy's links are counted by their targets in addition to the original's, the original is not changed, and later changes to either never show in the other.",
 ["histories","inputs"],"every document state and every non-root node copied, followed by any changes to copy or original",
 "Four tests copy small fixed nodes and compare the written text; link accounting and independence after the copy are not checked.",
 ["src/document.rs"],m(("copy_node/copy_node_deep/_make_deep_copy","src/document.rs")))
p("C08","Parsing any text ends in a document or an error, never a crash",
 "For every input text whose elements nest no deeper than a thousand levels, parsing returns: a document if the text is well-formed XML whose root element is svg in the SVG namespace, the missing-svg-element error if it is well-formed with another root, and the XML error otherwise; invalid attribute values, invalid CSS and unresolvable or circular links never make it fail. It never panics, overflows the stack or loops, with or without a logger installed, gives the same result when repeated, and every returned document can be written with any options, formatted and dropped without panicking. Every returned document has svg as its first element and contains no style elements, empty text nodes or non-SVG elements or attributes.",
 ["inputs"],"every UTF-8 text of bounded nesting depth",
 "Tests feed some 150 hand-written documents; totality is over all texts, hostile ones included.",
 ["src/parser/mod.rs","src/parser/text.rs","src/error.rs","src/writer.rs"],m(("process_node returns errors and drops bad values with a warning","src/parser/mod.rs"),("byte-indexed trimming in prepare_text_children","src/parser/text.rs")),None,["Document::from_str"])
p("C09","Parsing keeps exactly the SVG part of the document, in order",
 "The parsed document contains every SVG element, comment and significant text of the source, nested and ordered as in the source, each element with its id and exactly its recognised attributes (those without namespace or of the SVG, xlink and xml namespaces); and nothing else. Elements with unknown names or of other namespaces vanish with everything inside them, attributes with unknown names or of other namespaces, processing instructions and whitespace outside text elements vanish alone, and none of these changes anything about what is kept (except as siblings and ancestors that CSS selectors see): style sheets, for one, are read only from style elements of the SVG namespace. Comments before and after the svg element are kept.",
 ["inputs"],"every well-formed document built from SVG and foreign elements, attributes, comments, processing instructions and text at any position",
 "Parser tests use documents with one foreign element or attribute; arbitrary mixtures and depths are not sampled.",
 ["src/parser/mod.rs"],m(("process_node namespace and name filters","src/parser/mod.rs")))
p("C10","Style cascade picks the right declaration for every property",
 "For every element and every presentation property (and transform), the resulting attribute is the valid declaration with the highest priority: the style attribute over style-sheet rules over the plain attribute; among matching rules the higher selector specificity, then the later rule, then the later declaration, across all style elements of type text/css or no type. Selectors match by type, universal, id, class, attribute, first-child, descendant, child and adjacent-sibling; the marker shorthand in a rule sets the three marker properties; declarations of other properties, and style elements of other types, have no effect. Style, class and style elements do not appear in the result.",
 ["inputs"],"every element tree, every set of rules from the supported selector language (without !important), every placement of conflicting declarations",
 "css tests check about 20 sheets with at most two competing rules; combinations of specificity, order, source and links are not sampled.",
 ["src/parser/mod.rs","src/attribute_type.rs"],m(("attributes, then rules in specificity order, then style attribute in process_node","src/parser/mod.rs"),("simplecss::Element for XmlNode","src/parser/mod.rs"),("is_presentation","src/attribute_type.rs")))
p("C11","References become real links or documented fallbacks",
 "After parsing, every local reference (xlink:href, fill, stroke, clip-path, mask, filter, markers) whose id exists in the document is a link to the first element in document order with that id, with its paint fallback kept, wherever source and target stand. A reference to a missing id becomes its fallback if it has one, otherwise none for fill and the original reference text for the rest; a reference from an element to itself or its own id, or back to an earlier element that already links to it, is dropped. Only elements that are part of the resulting document are linked or counted.",
 ["inputs"],"every document with any number of elements, ids (duplicates included) and references between them",
 "Link tests use at most three elements; forward, duplicate, dangling, circular and removed targets in combination are not sampled.",
 ["src/parser/mod.rs","src/node.rs"],m(("resolve_links after the tree is complete and style elements are gone","src/parser/mod.rs")))
p("C12","Attribute values are parsed to the right type or dropped alone",
 "Every recognised attribute's value is stored with the type its attribute and element call for (length, length list, number, number list, color, paint keyword, path, points, transform, view box, aspect ratio, angle, keyword or string) and the value its text denotes after trimming, whether it comes from an attribute, a style attribute or a rule. Opacities and k1-k4 are clamped to 0..1, identity transforms, empty number and length lists and empty paths are not stored, and path data is kept up to its first error. A value invalid for its type is dropped without affecting any other attribute, element or the success of parsing.",
 ["inputs"],"every SVG element name x attribute name x value text, valid or not",
 "Tests cover some 40 attribute/value pairs out of 80 x 270 with unbounded value texts.",
 ["src/parser/mod.rs"],m(("_parse_svg_attribute_value table","src/parser/mod.rs"),("f64_bound","src/parser/mod.rs")))
p("C13","Text whitespace is normalised per xml:space and nothing else is lost",
 "Whatever the nesting of text elements and xml:space values, parsing keeps every non-whitespace character of every kept text node, in order and in its element, turns each tab, newline and carriage return into a space, leaves no empty text node and leaves xml:space attributes exactly as in the source. Text governed by preserve, set on its own element or inherited, keeps every space, even among text with default handling; text governed by default (any other xml:space value, or none) has its runs of spaces collapsed to one, never begins with a space at the start of the text element's content or after a text that ends in a space, and never ends the content with one. No space moves to another text node or appears where the source has none, and words separated in the source stay separated; of two spaces that meet at the border of two texts with default handling the first is kept if the second text is nested deeper, otherwise the second.",
 ["inputs"],"every text element content: any nesting of tspan-like elements, comments, xml:space values, Unicode text and whitespace",
 "text tests cover about 40 hand-picked contents; byte-based trimming over arbitrary nesting and Unicode is not sampled.",
 ["src/parser/text.rs","src/parser/mod.rs"],m(("trim, prepare_text_children, get_xmlspace and removal of temporary attributes","src/parser/text.rs")))
p("C14","Written documents are well-formed and parse back to the same document",
 "For every parsed document, and every document built through the API from SVG elements with values the parser would accept (ids of link targets: no parentheses, no white space at the end), the written text is well-formed XML and parses back to a document with the same elements, ids, typed attribute values, link targets, comments and text (outside text elements up to white space around it); writing that document again gives the same text. Quotes, ampersands, less-than signs, line breaks and tabs in attribute values and ids, and less-than signs in text, survive the trip, and so does any unicode attribute. Documents containing custom element or attribute names that are XML names, each used once per element, are still written as well-formed XML.",
 ["inputs","histories"],"every parsed or API-built document (text free of raw ampersands, see known findings)",
 "resave tests compare one write of small inputs with a literal; no test re-parses what was written.",
 ["src/writer.rs","src/parser/mod.rs","src/attribute_value.rs"],m(("write_dom","src/writer.rs"),("write_buf_opt","src/attribute_value.rs"),("write_attributes and namespace declarations","src/writer.rs")))
p("C15","Write options change notation only, never content",
 "Whatever combination of write options is chosen (quotes, node and attribute indentation, list separators, color, number, path and transform notation), the written text parses back to the same document as with the default options: same structure, text, ids, links and numerically equal values. Indentation never adds or removes text inside text elements, nested ones included. Writing does not modify the document.",
 ["inputs","configurations"],"every document x every combination of write options",
 "Writer tests fix one option at a time on one small document.",
 ["src/writer.rs","src/attribute_value.rs"],m(("WriteOptions passed to the XML writer and value writers","src/writer.rs")))
p("C16","Output layout and attribute order are fully determined",
 "The written text of any document is determined by its content and options alone: nodes in document order, each on its own line indented by depth unless inside a text element or indentation is off; on every element the id first, then SVG attributes in alphabetical order (ignoring case), then custom attributes in the order they were set; links written as #id or url(#id) plus fallback with the target's current id; a unicode attribute as character references, or not at all if its value is no string. The outermost svg elements carry the SVG namespace declaration first, and the xlink declaration exactly when an element in them has an xlink:href; xml:space and xlink:href are written with their prefixes. Without options, and with WriteOptions::default(), a document is written with double quotes, an indent of four spaces, attributes on one line, all value shortenings off and lists separated by spaces. The order in which the document was built or its attributes were set does not show, except for custom attributes.",
 ["inputs","histories","configurations"],"every document built by any history, every option set",
 "Writer tests compare about 25 small documents with literals.",
 ["src/writer.rs"],m(("write_attributes sorting","src/writer.rs"),("preserve-whitespace switch around text","src/writer.rs")))
p("C17","Element and attribute names map one-to-one to their identifiers",
 "Every SVG 1.1 element name and attribute name known to the library converts to its own identifier and back to exactly the same name, different names have different identifiers, and every other string (different case, prefix, suffix, near miss or arbitrary text) converts to none. Parsing recognises exactly these names, and writing emits exactly them.",
 ["inputs"],"all 80 element and 270 attribute names, and every other string",
 "Tests use a few dozen names; the generated perfect-hash tables are never checked as a whole.",
 ["src/names.rs","src/name.rs","codegen"],m(("perfect hash maps ELEMENTS and ATTRIBUTES","src/names.rs")))
p("C18","No memory is leaked and dropping a document isolates its nodes",
 "When a document and all node handles are dropped, all memory they used is released, whatever tree edits, links (circular ones included), copies, removals and failed parses came before; memory of removed nodes is released while the document lives on. Node handles that outlive their document stay usable without panicking and report no parent, children, siblings, attributes or links. Repeated building and removing does not grow memory.",
 ["histories"],"every history of document operations, every set of handles kept or dropped in any order",
 "No test looks at memory or at handles after drop; leaks come from reference cycles that only particular link histories create.",
 ["src/document.rs","src/tree.rs","src/node.rs"],m(("Drop for Document clears attributes and links and detaches every stored node","src/document.rs"),("slab removal in _remove","src/document.rs")),
 s(("storage","every node created by the document","src/document.rs")))
p("C19","Debug and display forms show exactly a node's data",
 "Formatting any node never panics and shows exactly its own data: for display an element as an opening tag with id and attributes in stored order, a comment as a comment, a text node as its text and the root as nothing; for debug the node type with the same data plus the ids of all nodes that link to it. Attributes format as name='value' separated by single spaces with xlink:href and xml:space prefixed, and formatting changes nothing.",
 ["inputs","histories"],"every node of every document state",
 "Six debug tests use fixed nodes; long attribute lists, links, custom names and all value types are not sampled.",
 ["src/writer.rs","src/attributes.rs","src/attribute.rs","src/name.rs"],m(("Debug/Display for NodeData","src/writer.rs"),("Display for Attributes","src/attributes.rs")))
p("C20","Type predicates and default values match their documented lists",
 "Each element category (referenced, basic shape, shape, container, text content, text content child, graphic, gradient, paint server, filter primitive) holds for exactly the elements its documentation lists and never for non-elements or custom tags, whatever else the node holds. Each attribute category (presentation, inheritable, animation event, graphical event, document event, conditional processing, core, fill, stroke) holds for exactly its listed attributes; default values are those of the SVG specification and absent for all other attributes. Every attribute value answers yes to exactly the one type predicate of its type.",
 ["inputs"],"all 80 elements, all 270 attributes, all value types, all node types",
 "No test calls most predicates; the tables have hundreds of entries.",
 ["src/element_type.rs","src/attribute_type.rs","src/attribute_value.rs","src/attribute.rs"],m(("is_func match tables","src/element_type.rs, src/attribute_type.rs"),("default_value","src/attribute_value.rs")))
p("C21","The result does not depend on how the XML source is spelled",
 "Two source texts that denote the same document give the same result: quote style, order of attributes, namespace prefixes and where they are declared, empty-element tags versus start-end pairs, whitespace inside tags, character and entity references, CDATA sections, XML declaration, DOCTYPE and line-ending style do not matter. Likewise a presentation attribute, the same non-empty declaration in a style attribute and the same declaration in a rule that matches only that element give the same attribute. (No element has two attributes with the same local name, like href and xlink:href.)",
 ["inputs"],"every abstract document x every pair of spellings of it",
 "Tests fix one spelling per document.",
 ["src/parser/mod.rs"],m(("process_node works on the parsed XML tree only","src/parser/mod.rs"),("parse_style_attribute and parse_css_attribute_value share one value parser","src/parser/mod.rs")))
p("C22","Shared borrows never get in the way of reading, and misuse changes nothing",
 "While any number of shared borrows of node data (attributes, id, text, tag name, linked nodes) are held, every operation that only reads works and gives the same result: navigation, iteration, lookups, predicates, formatting and writing the document; a drain predicate may read the whole document too; and changing the id or plain attributes of other nodes, linking nodes that are not borrowed and creating nodes works as well. Inserting a node into or beside itself, an empty tag name, creating an element or root through create_node, and changing the id, tag name or plain attributes of a borrowed node panic as documented and leave the document as it was.",
 ["histories"],"every document state, every set of held shared borrows, every reading call and every refused call",
 "No test holds a borrow across calls or looks at a document after a refused call; the guarantee is over all states and all combinations of borrows.",
 ["src/tree.rs","src/node.rs","src/document.rs","src/writer.rs"],m(("RefCell borrows are shared for reads and taken only around one access","src/tree.rs, src/node.rs"),("assertions before any relinking","src/tree.rs"),("empty tag name and node type checks","src/document.rs, src/node.rs")),
 None,["Node::attributes","Node::id","Node::linked_nodes","Document::drain","Document::to_string"])
p("C23","The name generator maps any name list one-to-one",
 "For any two lists of distinct names (letters, digits and the separators - _ :, beginning with a letter or digit, one per line, blank lines and a missing final newline allowed) whose identifiers are distinct, running the generator in codegen writes a names source file that compiles and in which every listed name converts to the identifier formed from it (separators dropped and the following letter capitalised, N before a leading digit) and back to exactly the same name, identifiers are ordered as in the list, and every other string converts to none. The same lists always give the same file, whatever the old file held. Run on the lists in the repository, it gives the names, numbers and order that the library has.",
 ["inputs"],"every pair of name lists",
 "Nothing in the test suite builds or runs the generator.",
 ["codegen/main.rs","codegen/elements.txt","codegen/attributes.txt","src/names.rs"],m(("gen_map writes the enum, the hash map and the conversions","codegen/main.rs"),("to_enum_name forms identifiers","codegen/main.rs"),("Map::get, Map::key","codegen/main.rs, src/names.rs")))
p("C24","Every loss is reported in the log, once, and nothing else is",
 "While a document is parsed, each of these gives exactly one warning in the log: an attribute value or CSS declaration of a recognised property that is invalid for its type, once for every element it is for (the warning contains the attribute name and the value; an invalid marker shorthand in a rule counts for each of the three marker properties); path data cut at an error (it contains line:column, both from 1 and in characters, at which the attribute's value begins in the source); a reference to a missing id that has no fallback and is not overridden by a value of higher priority that is no reference itself (it contains the id); a reference dropped because it leads to its own element or back to an element that already links to it (it contains the attribute name and the id). Nothing else is logged at warning level or above: not valid values, empty lists and paths, identity transforms, unknown or foreign names, declarations of other properties, rules that match no element, and references that resolve or have a fallback. Editing a document is silent, except that removing a node that was already removed gives a warning; writing gives one warning for each unicode attribute whose value is no string, which is left out, and is silent otherwise. A text that is not well-formed is refused with the message and position the XML parser gives.",
 ["inputs"],"every document with any mixture of valid and invalid values, declarations, path data and references, every edit history",
 "No test looks at the log, and error tests compare a handful of messages.",
 ["src/parser/mod.rs","src/error.rs","src/writer.rs","src/document.rs"],m(("warn! on invalid values and cut paths","src/parser/mod.rs parse_svg_attribute_value, _parse_svg_attribute_value"),("warn! on unresolved and refused links","src/parser/mod.rs resolve_links"),("ParserError and its Display","src/error.rs")),
 None,["log records of target svgdom","Document::from_str"])
p("C25","Documents do not influence each other",
 "Any number of documents can be parsed, built, edited, written and dropped side by side, interleaved in one thread or each on a thread of its own, and each behaves as if it were the only one: the result of every parse (document, error or warnings), of every edit and of every write of a document depends on what was done with that document alone, not on other documents that exist, existed or failed to parse, even ones with the same source, ids or names. Dropping a document affects only its own nodes.",
 ["histories","schedules"],"every interleaving of the lives of several documents (whose nodes are not moved from one to another), in one or several threads",
 "Every test uses one document at a time in a fixed order; state shared between documents (a cache, a counter, a reused buffer) would go unseen.",
 ["src/document.rs","src/parser/mod.rs","src/writer.rs","src/node.rs","src/name.rs"],m(("Document owns its nodes and clears them when dropped","src/document.rs"),("parse_svg keeps styles and links in locals","src/parser/mod.rs parse_svg"),("the writer keeps its state in locals","src/writer.rs")),
 None,["Document::from_str","Document::to_string_with_opt","Drop of Document","log records of target svgdom"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import subprocess

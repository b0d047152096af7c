D = "include/DOM/Simple/"
X = "include/XPath/impl/"
T = "include/XSLT/impl/"
DOMTECH = "TLA+ state machine of the DOM (spec/Dom.tla), model-checked by TLC; traces of the real library under random and exhaustive operation sequences validated by TLC"
prop("C01", "The DOM tree stays a tree and every mutator does exactly what DOM Core says",
     "After any sequence of node insertions, replacements, removals and fragment moves, every document is an ordered tree: parent, child and sibling links agree, no node is its own ancestor or occurs twice, a document has at most one element and one doctype child, and owner documents are right. An operation DOM Core forbids raises one of the errors it allows and changes nothing.",
     ["histories", "inputs"], "every sequence of structural mutations over every pair of documents and every kind of node, including moves of nodes already in the tree, fragments, foreign nodes and read-only subtrees",
     "the suites call each mutator once on a fresh small tree; what breaks is the second and third operation on a tree that earlier operations shaped (moving a node before itself, a fragment into its own child, the root through a fragment)",
     [D + "NodeImpl.hpp", D + "DocumentImpl.hpp", D + "DocumentFragmentImpl.hpp", D + "ElementImpl.hpp"],
     [("child list and refusals", D + "NodeImpl.hpp: NodeWithChildren insertBefore, replaceChild, removeChild, appendChild"), ("document constraints", D + "DocumentImpl.hpp: insertBefore, replaceChild, checkChildType")],
     "checks/c01.py", DOMTECH, "TLC enumerates every state of a 7-node stock under all mutators and the implementation is driven breadth-first over the same stock with equal state counts; beyond that, seeded random sequences validated line by line")
prop("C02", "Attribute maps, attribute ownership, defaults and element IDs stay consistent",
     "After any sequence of attribute operations by name, by namespace, by node or through the attribute map, each element holds at most one attribute of a name, each attribute has at most one owner and reports it, declared defaults reappear when a specified attribute is removed, and looking an element up by ID finds exactly the in-document element carrying it. Refused operations change nothing.",
     ["histories"], "every sequence of attribute operations, mixed with moving the owner in and out of the tree and with DTD-declared default and ID attributes",
     "tests set and read single attributes; stale ownership, defaults and IDs only show after replacing or removing attributes that were shared, defaulted or declared ID",
     [D + "NamedNodeMapImpl.hpp", D + "AttrMap.hpp", D + "AttrImpl.hpp", D + "AttrNSImpl.hpp", D + "DocumentImpl.hpp"],
     [("attribute maps", D + "AttrMap.hpp"), ("ID registry", D + "DocumentImpl.hpp: getElementById, setOwnerDoc paths")],
     "checks/c02.py", DOMTECH, "seeded random attribute histories of up to 60 operations over two documents, every one accepted step by step by the specification that TLC model-checks on a small stock")
prop("C03", "Live node lists always show the current tree",
     "A node list obtained once (children of a node, elements by tag name, elements by namespace and local name, attribute maps) always reports exactly the nodes, in document order, that the tree holds at the time it is asked, whatever was inserted, moved, renamed or removed in between.",
     ["histories"], "every list kept across every sequence of mutations of the tree it looks at, read partly or wholly at any point",
     "tests read a list right after creating it; caching bugs need a list that outlives a mutation elsewhere in the tree",
     [D + "ElementImpl.hpp", D + "DocumentImpl.hpp", "include/DOM/NodeList.hpp"],
     [("tag lists and their change counter", D + "ElementByTagImpl.hpp")],
     "checks/c03.py", DOMTECH, "lists are kept alive across random histories and compared with the specification's list at every step")
prop("C04", "Character data editing and text normalisation follow DOM Core exactly",
     "Inserting, deleting, replacing and extracting character data uses exactly the addressed range or refuses with an index error and changes nothing; splitting a text node yields two adjacent siblings whose concatenation is the original; normalising merges exactly the adjacent text nodes and drops empty ones while leaving the document's text unchanged.",
     ["histories", "inputs"], "every offset and count including past-the-end values, every kind of character data node, inside and outside a tree",
     "boundary offsets, CDATA sections, parentless nodes and interleavings of split and normalise are combinatorial",
     [D + "CharacterDataImpl.hpp", D + "TextImpl.hpp", D + "CDATASectionImpl.hpp", D + "NodeImpl.hpp"],
     [("range checks", D + "CharacterDataImpl.hpp"), ("split", D + "TextImpl.hpp: splitText"), ("normalize", D + "NodeImpl.hpp: normalize")],
     "checks/c04.py", DOMTECH, "random editing histories validated line by line; the laws of split and normalise are invariants TLC checks on the model")
prop("C05", "Cloning and importing copy exactly what they should and share nothing",
     "A shallow or deep clone, or a node imported from another document, equals the original in type, name, value, attributes and (deep) content, belongs to the right document, has no parent, is not read-only where DOM says so, and later changes to either copy never show in the other.",
     ["histories"], "every node kind, shallow and deep, with defaulted attributes, entity references and read-only subtrees, followed by any mutations of both copies",
     "equality of the copy is tested once; sharing shows only when either side is changed afterwards",
     [D + "ElementImpl.hpp", D + "DocumentImpl.hpp", D + "AttrMap.hpp"],
     [("cloneNode", D + "*Impl.hpp: cloneNode"), ("importNode", D + "DocumentImpl.hpp: importNode")],
     "checks/c05.py", DOMTECH, "random histories with clones and imports of everything reachable, then mutations of both sides, validated line by line")
prop("C06", "DOM handles keep their document alive and release it exactly once",
     "A document and all its nodes stay usable while any handle to any of them exists, in whatever order handles are copied, assigned, moved between documents and dropped, and when the last handle goes everything is freed exactly once.",
     ["histories"], "every order of creating, copying, assigning, adopting and dropping handles to nodes, documents, lists and maps",
     "lifetime bugs depend on the order in which handles die, which tests fix to scope order",
     ["include/DOM/Proxy.hpp", "include/DOM/Node.hpp", D + "NodeImpl.hpp", D + "DocumentImpl.hpp"],
     [("reference counting of handles", "include/DOM/Proxy.hpp"), ("per-document reference count and teardown", D + "DocumentImpl.hpp: addRef, releaseRef, deleteOwnedNodes"), ("orphan adoption", D + "NodeImpl.hpp: setOwnerDoc")],
     "checks/c06.py", "TLA+ specification of handle lifetime (spec/Life.tla) model-checked by TLC; recorded histories with allocation counters validated by TLC", "every history up to a depth on a small stock and random long histories, under AddressSanitizer, with exact live-object counts")
prop("C07", "Tree walkers visit exactly the accepted nodes, forwards and backwards",
     "Moving a tree walker in any direction yields exactly the node DOM Traversal defines for its root, node mask and filter; it never leaves the root, and walking forward then backward retraces the same nodes in reverse.",
     ["inputs", "histories"], "every small tree, every mask and filter (accept, skip, reject per node), every sequence of moves",
     "tests walk one fixed tree forward with no filter",
     ["include/DOM/Traversal/TreeWalker.hpp", "include/DOM/Traversal/NodeFilter.hpp", "include/DOM/Traversal/DocumentTraversal.hpp"],
     [("walker moves", "TreeWalkerImpl")],
     "checks/c07.py", "TLA+ specification of TreeWalker; exhaustive small trees x filters x moves replayed and validated by TLC", "all trees up to a bound with all accept/skip/reject labellings, plus random larger ones")
prop("C08", "Serialising a DOM and parsing it back gives the same document",
     "Building a document by parsing yields exactly the infoset the markup denotes, and writing any well-formed document out and parsing the result gives an equal document: same structure, names, namespaces, attribute values and character data, including markup characters, CDATA section ends and namespace declarations that must be invented.",
     ["inputs", "histories"], "every document reachable by parsing or by DOM mutation whose characters are XML characters",
     "escaping and namespace fix-up interact with content the tests do not contain",
     ["include/DOM/io/Stream.hpp", "include/DOM/SAX2DOM/SAX2DOM.hpp"],
     [("writer", "include/DOM/io/Stream.hpp"), ("builder", "include/DOM/SAX2DOM/SAX2DOM.hpp")],
     "checks/c08.py", "TLA+ specification of the infoset and of the admissible serialisations; traces of the real writer and builder validated by TLC", "exhaustive small and random large documents through writer and all parser back ends")
prop("C09", "XPath axes and document order are exact",
     "Each XPath axis, from any context node including attributes and namespace nodes, selects exactly the nodes XPath 1.0 defines, in axis order, and a node-set result is in document order without duplicates.",
     ["inputs"], "every document and context node, every axis and node test, including documents with adjacent text and CDATA nodes, doctypes, comments and nested namespace declarations",
     "axis errors show only at particular shapes: last child of last child, attribute contexts, adjacent text",
     [X + "xpath_axis_enumerator.hpp", X + "xpath_namespace_node.hpp", X + "xpath_object.hpp"],
     [("axis enumerators", X + "xpath_axis_enumerator.hpp"), ("document order comparison", X + "xpath_object.hpp: NodeSet::to_document_order and helpers")],
     "checks/c09.py", "TLA+ specification of the XPath data model and axes; exhaustive small documents and random larger ones, results validated by TLC", "every document up to a bound x every context node x every axis and test, results compared with the specification")
prop("C10", "XPath expressions evaluate to the value XPath 1.0 defines",
     "Any XPath 1.0 expression, built from literals, node-sets, operators and the core function library, evaluates to the value and type the recommendation defines, with its conversions, its node-set comparison rules, its operator precedence and its treatment of NaN and infinities.",
     ["programs", "inputs"], "every expression over the grammar, over documents and variables of every type",
     "comparisons and conversions are a cross product of four types, empty sets, NaN and signed zeros",
     [X + "xpath_object.hpp", X + "xpath_arithmetic.hpp", X + "xpath_relational.hpp", X + "xpath_logical.hpp", X + "xpath_function.hpp", "include/XPath/impl/xpath_expression.hpp"],
     [("comparison", X + "xpath_object.hpp: compareNodeSets, nodeSetsEqual"), ("functions", X + "xpath_function.hpp")],
     "checks/c10.py", "executable TLA+ semantics of XPath 1.0; generated expressions evaluated by the library and by TLC", "all operator/type pairs enumerated and random expressions of bounded depth, each decided by the specification evaluated in TLC")
prop("C11", "Location paths, predicates and match patterns agree",
     "A location path selects exactly the nodes obtained step by step with each predicate applied to proximity positions along the axis, abbreviations mean what they abbreviate, and a node matches a pattern exactly when some ancestor-or-self context selects it with that pattern as a path.",
     ["programs", "inputs"], "every path and pattern over the grammar, in every context",
     "pattern matching is a separate implementation from selection, and only their agreement over all inputs matters",
     ["include/XPath/impl/xpath_match.hpp", "include/XPath/impl/xpath_match_rewrite.hpp"],
     [("steps and predicates", "include/XPath/impl/xpath_step.hpp"), ("pattern rewriting", "include/XPath/impl/xpath_match_rewrite.hpp")],
     "checks/c11.py", "executable TLA+ semantics of location paths and patterns; results of the real library validated by TLC", "generated paths and patterns over generated documents, each decided by the specification in TLC")
prop("C12", "XSLT picks the right template rule",
     "For every node and mode the template instantiated is the one XSLT 1.0 selects: highest import precedence, then highest explicit or default priority, then last in the stylesheet, falling back to the built-in rules; imported rules are reached exactly through apply-imports, and includes behave as if their content were written in place.",
     ["programs", "inputs"], "every stylesheet of template rules, modes, priorities, unions, imports and includes over every source document",
     "rule selection is decided by the interaction of several rules; the suite has fixed stylesheets",
     [T + "xslt_stylesheet.hpp", T + "xslt_stylesheet_compiler.hpp", T + "xslt_apply_imports.hpp"],
     [("match sorting", T + "xslt_compiled_stylesheet.hpp: set_up_matches, doApplyTemplates")],
     "checks/c12.py", "TLA+ specification of template rule selection; generated stylesheets run by the real processor and validated by TLC", "random and enumerated rule sets over random documents; every instantiation traced")
prop("C13", "XSLT variables and parameters are scoped and passed as XSLT 1.0 says",
     "A variable reference sees the nearest preceding binding in scope or the global one, parameters take the passed value or their default evaluated in the callee, nothing leaks between template instantiations, iterations or executions, and circular global definitions are reported instead of looping.",
     ["programs", "histories"], "every nesting of templates, calls, loops, parameters and globals, and repeated executions of one compiled stylesheet",
     "leaks show only when a binding made in one branch or call is looked up in another",
     [T + "xslt_variable_stack.hpp", T + "xslt_variable.hpp", T + "xslt_call_template.hpp", T + "xslt_with_param.hpp"],
     [("variable stack", T + "xslt_variable_stack.hpp")],
     "checks/c13.py", "TLA+ specification of scopes and parameter passing; generated programs run by the real processor and validated by TLC", "random programs; every instantiation traced")
prop("C14", "XSLT iteration, sorting and keys process the right nodes in the right order",
     "Applying templates or looping over a node-set visits its nodes in document order or in the stable order its sort keys define, with position, last and current node right inside, nested and afterwards, and key lookups return exactly the nodes whose key expressions have the value.",
     ["programs", "inputs"], "every node-set, every list of sort keys with data type and order, including ties and non-numbers, and any nesting",
     "sort stability, NaN keys and restoration of the context after a nested loop need combinations the tests lack",
     [T + "xslt_sort.hpp", T + "xslt_for_each.hpp", T + "xslt_apply_templates.hpp", T + "xslt_key.hpp"],
     [("sort keys", T + "xslt_sort.hpp"), ("keys", T + "xslt_key.hpp")],
     "checks/c14.py", "TLA+ specification of sorting, iteration context and keys; generated stylesheets run and validated by TLC", "random node-sets with random keys; every iteration traced")
prop("C15", "XSLT result trees are built and written as XSLT 1.0 says",
     "The instructions that create nodes build exactly the result tree XSLT 1.0 defines (attributes only before content, last one wins, adjacent text merged, namespaces declared where needed), and the written result parses back to that tree.",
     ["programs", "inputs"], "every nesting of node-creating instructions, copies, comments and processing instructions with any content",
     "the sink is a state machine over event sequences; tests exercise a few fixed ones",
     [T + "xslt_sink.hpp", "include/XSLT/impl/xslt_copy.hpp", T + "xslt_element.hpp", T + "xslt_attribute.hpp"],
     [("output state machine", T + "xslt_sink.hpp")],
     "checks/c15.py", "TLA+ specification of result tree construction; generated stylesheets run and validated by TLC", "random instruction sequences; result trees compared with the specification's")
prop("C16", "Every parser back end reports the same document through the same SAX events",
     "For any input the SAX event stream is properly bracketed and nested, reports exactly the document's content and declarations, stops at a fatal error which is reported once, and is the same, up to how text is cut, whichever back end is compiled in and however often the reader is reused.",
     ["inputs", "configurations", "histories"], "every document, well-formed or not, every back end, first or later parse with the same reader, handlers present or absent",
     "the tests are compiled against one back end at a time and parse mostly well-formed input once",
     ["include/SAX/wrappers/saxexpat.hpp", "include/SAX/wrappers/saxlibxml2.hpp", "include/SAX/wrappers/saxxerces.hpp"],
     [("Expat adapter", "include/SAX/wrappers/saxexpat.hpp"), ("libxml2 adapter", "include/SAX/wrappers/saxlibxml2.hpp"), ("Xerces adapter", "include/SAX/wrappers/saxxerces.hpp")],
     "checks/c16.py", "TLA+ specification of the SAX event protocol and of the content to be reported; event traces of all three back ends validated by TLC", "generated documents and malformed variants through three back ends, each trace accepted by the specification")
prop("C17", "Namespace contexts resolve prefixes by scope",
     "After any sequence of pushing, popping, declaring and resetting, a prefix resolves to the innermost declaration in scope, undeclared and reserved prefixes are treated as Namespaces in XML says, names are split accordingly, and leaving a context restores exactly what was there before.",
     ["histories"], "every sequence of push, declare, pop, reset and lookups, including redeclaration, undeclaration and shadowing at any depth",
     "shadowing and restoration need particular nestings",
     ["include/SAX/helpers/NamespaceSupport.hpp"],
     [("context stack", "include/SAX/helpers/NamespaceSupport.hpp")],
     "checks/c17.py", "TLA+ state machine of namespace contexts, model-checked; exhaustive and random traces of the real class validated by TLC", "breadth-first over all operation sequences of a bounded alphabet with equal state counts, plus random long ones")
prop("C18", "SAX filters and attribute lists pass on exactly what they receive",
     "Events put through any chain of the library's filters reach the final handler complete, in order and unchanged except for what the filter exists to change; text batching only joins adjacent text, whitespace filters only what they say, base tracking resolves against the innermost xml:base, and attribute lists keep index, name and value lookups consistent.",
     ["histories", "configurations"], "every event sequence and every chain of filters, with handlers set before, between and after parses",
     "filters keep state between events; tests feed one document",
     ["include/SAX/helpers/XMLFilterImpl.hpp", "include/SAX/filter", "include/SAX/helpers/AttributesImpl.hpp", "include/SAX/helpers/XMLBaseSupport.hpp"],
     [("forwarding", "include/SAX/helpers/XMLFilterImpl.hpp"), ("filters", "include/SAX/filter/*.hpp")],
     "checks/c18.py", "TLA+ specification of filters as event transducers; recorded event streams validated by TLC", "random event sequences through random chains")
prop("C19", "Taggle turns any HTML-ish input into balanced SAX events and terminates",
     "For any byte sequence the HTML parser terminates without failing and reports one properly nested document: every start has its end, one root, no duplicate attributes, text and nesting as its element schema requires, and clean HTML comes through with its structure unchanged.",
     ["inputs"], "every input string, however malformed",
     "the point of the component is arbitrary garbage; the tests hold a few pages",
     ["include/Taggle/Taggle.hpp", "include/Taggle/impl"],
     [("rectifier", "include/Taggle/impl/Parser.hpp"), ("scanner", "include/Taggle/impl/html/HTMLScanner.hpp")],
     "checks/c19.py", "TLA+ specification of the balanced-event discipline and the element stack; event traces of generated inputs validated by TLC", "all short strings over a token alphabet and random long ones, each event trace accepted by the specification")
prop("C20", "URI references resolve as RFC 3986 says",
     "Splitting a URI and putting it together again gives the same URI, and resolving a relative reference against a base gives the reference target RFC 3986 defines, for every combination of present and absent parts.",
     ["inputs"], "every base and reference over the URI grammar, including dot segments, empty parts and odd schemes",
     "the tests hold a list of examples",
     ["src/io/uri.cpp", "include/io/uri.hpp"],
     [("parser", "src/io/uri.cpp: parse"), ("relative resolution", "src/io/uri.cpp: constructor from base and path")],
     "checks/c20.py", "executable TLA+ specification of RFC 3986 resolution; enumerated and random references validated by TLC", "every composition of bounded components, each decided by TLC")
prop("C21", "Character conversions are exact and independent of how the data is cut",
     "Decoding then encoding any text gives the same text, and the result of converting a sequence does not depend on how it is split into buffers, flushes and reads; malformed input is reported and never over-read.",
     ["inputs", "schedules"], "every text, every buffer size and split, each codec alone or stacked",
     "results depend on where buffer boundaries fall inside a multi-byte unit",
     ["src/convert", "include/convert", "include/convert/impl"],
     [("codecs", "src/convert/*.cpp, src/convert/impl/*.cpp"), ("stream adapters", "include/io/convertstream.hpp, include/io/convert_adaptor.hpp")],
     "checks/c21.py", "TLA+ state machines of the codecs with nondeterministic buffer splits, model-checked; runs of the real codecs with enumerated splits validated by TLC", "every split of bounded inputs and random longer ones")
prop("C22", "XML readers keep their feature, property and handler settings",
     "Setting a feature, property or handler is remembered and reported back, governs the next parse as documented, is refused with the right exception when unknown or not changeable (also in the middle of a parse), and never depends on earlier parses of the same reader.",
     ["histories", "configurations"], "every sequence of get, set, parse and failed parse on one reader of each back end",
     "settings interact with reuse after success, failure and exceptions from handlers",
     ["include/SAX/wrappers", "include/SAX/XMLReader.hpp", "include/SAX/helpers/FeatureNames.hpp"],
     [("features", "include/SAX/wrappers/*.hpp: setFeature, getFeature, doSetProperty")],
     "checks/c22.py", "TLA+ state machine of the reader protocol; random call histories on every back end validated by TLC", "all short histories and random long ones per back end")

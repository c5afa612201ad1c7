# Properties.  claim=(technique, level_note) once a check decides them.

prop('C01', 'Parsing never modifies the documents it is given',
 '''Parsing, normalizing or generating code from XML documents, and discovering their imports, never writes to the byte slices
 (or the list of byte slices, including its spare capacity) that the caller passed in, and never alters the bundled standard schemas.
 The same documents can be parsed again, or concurrently, with the same result.''',
 ['inputs', 'histories'], 'every document, in any character encoding, and every sequence of calls that shares document slices',
 '''Tests parse a handful of documents once; a write through an alias (spare capacity of a variadic slice, a buffer that wraps the input)
 shows only for particular capacities and sequences of calls.''',
 ['xmltree/xmltree.go', 'xsd/parse.go', 'xsd/xsd.go', 'wsdl/wsdl.go', 'xsdgen/cli.go'],
 [('content slices alias the input', 'xmltree/xmltree.go Parse'), ('bundled schemas appended to the documents', 'xsd/parse.go Normalize')],
 claim=('points-to / mod-ref analysis (inclusion-based, over SSA) with protected regions',
  '''Decides, for all inputs, that no store, append into spare capacity, copy, map update or writing library call reachable from the
  parsing entry points can target caller-owned documents or the bundled schemas. Trusts the table of what standard-library functions
  write, and the absence of package unsafe (checked).'''))

prop('C02', 'Queries and serialization leave trees unchanged; scopes stay independent',
 '''Comparing, searching, flattening, marshalling, unmarshalling or looking up attributes and names in an element tree or schema never changes
 that tree, schema or any namespace scope reachable from it. Adding namespace declarations to one element's scope, or joining
 two scopes, never changes what any other element's scope contains.''',
 ['inputs', 'histories'], 'every tree, and every sequence of queries and scope operations on trees that share storage',
 'Tests compare fresh trees; a reordered slice or an overwritten shared backing array shows only with particular capacities and after particular sequences.',
 ['xmltree/compare.go', 'xmltree/marshal.go', 'xmltree/xmltree.go', 'xsd/xsd.go'],
 [('scope sharing between parent and children', 'xmltree/xmltree.go pushNS, JoinScope'), ('order-insensitive comparison', 'xmltree/compare.go equal')],
 claim=('points-to / mod-ref analysis over SSA, plus a typestate rule for appends to shared scope slices',
  '''Decides, for all inputs, that no write reachable from the query entry points targets memory reachable from their arguments, and that
  every append to a shared list of declarations finds no spare capacity or leaves none. Trusts the library effect table; callbacks
  supplied by the caller are outside the rule.'''))

prop('C03', 'Malformed input is rejected with an error, never a panic',
 '''No document, however malformed, makes parsing it as XML, as a schema or as a service description panic, nor makes generating code
 from it panic. An input the library cannot handle yields an error return.''',
 ['inputs'], 'every sequence of documents given to the parsing and generating entry points, with the default options',
 'Tests feed well-formed documents; each panic needs its own malformed document.',
 ['xmltree/xmltree.go', 'xsd/parse.go', 'xsd/walk.go', 'wsdl/wsdl.go', 'xsdgen/xsdgen.go', 'xsdgen/config.go', 'wsdlgen/wsdlgen.go'],
 [('errors raised by panic and recovered', 'xsd/walk.go stop, walk, catchParseError'), ('slicing of the source document', 'xmltree/xmltree.go Element.parse')],
 na='''Freedom from panics needs bounds on indices into documents, absence of nil where a type has a member that is an interface or pointer, and exhaustiveness of type switches over values shaped by the document, across packages that raise errors by panic on
 purpose. The facts that make each site safe are invariants of whole data structures that no interval, nilness or type-set analysis in reach establishes; one that reports every site it cannot prove would alarm on correct code. Parts are covered where they are decidable:
 which panics become errors (C05), that no reference stays unresolved (C12), and that a function returns under the same conditions as its reference (C12-C25).''')

prop('C04', 'Every operation terminates',
 '''Every library operation terminates on every input: documents nested arbitrarily deep, types derived from or containing themselves
 or each other, references that form a cycle, and files that import each other are rejected or handled in finite time and finite stack.''',
 ['inputs'], 'every document and set of documents, including cyclic and deeply nested ones',
 'Tests use acyclic, shallow documents; non-termination needs a particular cycle.',
 ['xmltree/xmltree.go', 'xmltree/marshal.go', 'xmltree/compare.go', 'xsd/parse.go', 'xsd/xsd.go', 'xsdgen/xsdgen.go', 'xsdgen/cli.go', 'internal/dependency/graph.go'],
 [('recursion limits', 'xmltree recursionLimit, maxDepth'), ('cycle check', 'xsd/parse.go hasCycle'), ('visited sets', 'xsdgen/xsdgen.go flatten1, xsdgen/cli.go readNewFiles, internal/dependency/graph.go Flatten')],
 na='''Termination over cyclic graphs of types, elements and files needs a well-founded measure for each recursion and loop (nodes not visited yet, references not replaced yet), which depends on the contents of maps and trees at run time; no syntactic or dataflow rule in
 reach tells a loop that makes progress from one that does not. Covered in part, where a reference definition fixes the guard: the depth limits of the parser, encoder and comparison (C14, C19, C24), the visited set of the graph walk (C18), the cycle check of Normalize (C25), the
 counter that follows bases (C12) and the set of types being flattened (C21).''')

prop('C05', 'Every failure is reported to the caller',
 '''When a step of an operation fails (a file cannot be read or written, a document cannot be parsed, a name or type cannot be
 resolved, a value is invalid, code cannot be generated or formatted) the exported operation returns a non-nil error. No operation
 carries on with the partial result of a failed step, or reports success after it.''',
 ['inputs', 'fault_sequences'], 'every failing step of every operation that can return an error, on every path',
 'Tests exercise success paths; each failing step needs its own fault at its own moment.',
 ['xmltree', 'xsd', 'xsdgen', 'wsdl', 'wsdlgen', 'internal/gen', 'internal/commandline', 'cmd'],
 [('error returns', 'all packages'), ('sticky scanner error', 'xmltree/xmltree.go scanner'), ('error list', 'xsdgen/xsdgen.go gen')],
 claim=('path-sensitive dataflow on the nilness of error values, over SSA, from every call that can fail to every exit',
  '''Decides, for every call that can fail, every look-up of a declared name and every recovered panic, that no path from the failure leaves the
  function without a non-nil error, a sticky error or a panic that is turned into an error. In functions that cannot return an error it
  decides only that the error is looked at (in the parsing packages and commands: that it ends in a panic or exit). Failures that
  library code does not report through an error value are outside the rule.'''))

prop('C06', 'Generation is deterministic',
 '''The same documents, options and file names always give the same result: the generated source is the same byte for byte,
 the same names are assigned to the same types, and type lookups find the same type, whatever the order in which maps happen to be
 iterated, and independent of time, environment, goroutine scheduling and of what the same process generated before. A run does not change the
 configuration it is given. (Which of several errors in the input is reported first is not determined.)''',
 ['inputs', 'schedules', 'histories'], 'every set of documents and options, every map iteration order, and every earlier run in the same process',
 '''A test run samples one iteration order; small maps often come out in the same order.''',
 ['xsd/xsd.go', 'xsd/parse.go', 'xsdgen/xsdgen.go', 'xsdgen/config.go', 'xsdgen/cli.go', 'wsdl/wsdl.go', 'wsdlgen/wsdlgen.go', 'internal/gen/gen.go', 'internal/dependency/graph.go'],
 [('sorted iteration', 'xsdgen/xsdgen.go sortedNames, rangeMap, GenAST'), ('lookup order', 'xsd/xsd.go FindType')],
 claim=('order-effect dataflow over SSA for every map iteration, points-to analysis for state kept between runs, who-may-call rules for hidden inputs',
  '''Decides, for every iteration over a map, that its body is insensitive to order or that what it collects is sorted by a total order before any other use; that no
  goroutine, select, clock, environment or random source is used; that nothing reachable from package variables or the configuration is written by a run.
  Exceptions: the program name (os.Args[0]) in messages and what imports.Process consults. Comparators are checked to be total on the key they compare.'''))

prop('C07', 'Only files the caller named are touched',
 '''The parsing packages perform no input or output of their own. The code generators read only the files named by the caller, plus, only when
 following imports is enabled, the locations those files import; they write only the requested output file, and only
 with complete, successfully formatted source, so that a failed run leaves an existing output file alone. Nothing contacts the network or starts a process.
 (Resolving the import declarations of the generated source may consult the Go installation.)''',
 ['inputs', 'fault_sequences', 'configurations'], 'every document, option and failing step',
 'Tests observe only that the expected output appears, not what else is touched or what a failed run leaves behind.',
 ['xmltree', 'xsd', 'wsdl', 'xsdgen/cli.go', 'wsdlgen/cli.go', 'wsdlgen/wsdlgen.go', 'internal'],
 [('file reads', 'xsdgen/cli.go readNewFiles, wsdlgen/wsdlgen.go GenAST'), ('output', 'xsdgen/cli.go and wsdlgen/cli.go GenCLI')],
 claim=('who-may-call rules over the type-checked program, and interprocedural provenance (backward dataflow) of file names and data',
  '''Decides, for all inputs, that every member of another package that is used is on a list of members without side effects, that every path read
  comes from the caller or, guarded by the follow-imports setting, from an import, and that what is written is the formatted source, to the output
  flag, on no path from a failure. Trusts the list, and imports.Process.'''))

prop('C08', 'Marshalled documents never contain unescaped text',
 '''When an element tree is marshalled, every attribute value and every namespace URI is written between double quotes in
 escaped form, so that whatever characters they contain, they cannot end the attribute or the tag or add markup.''',
 ['inputs'], 'every element tree, including attribute values and namespaces set by the program',
 'Tests marshal values without special characters.',
 ['xmltree/marshal.go'], [('tag template', 'xmltree/marshal.go tagTmpl')],
 claim=('evaluation of template parse trees within a gated value graph: each value in the output is classified by the text around it; value numbering of the escaping function',
  '''Decides, for every tree, that every value that the templates of the marshalling functions put between double quotes is the result of an escaping function, that attribute values and namespaces are written nowhere else,
  and that the escaping function escapes (or returns its argument only when it has been found to contain nothing to escape). What xml.EscapeText and its like do is left to the standard library. Names of elements, attributes and prefixes, and content,
  are written as they are and not covered. Text escaped by a loop of the repository's own is reported as undecided.'''))

prop('C09', 'Document text cannot inject code into generated source',
 '''Text taken from a schema or service description (names, default values, documentation, namespaces, addresses, patterns) reaches the generated
 source only inside a quoted string literal, inside a line comment that it cannot end, or as an identifier from which everything but letters,
 digits and underscores has been removed. No document can add declarations or statements to the generated source.''',
 ['inputs'], 'every document, with the default options',
 'Tests use names and values that are harmless as Go source.',
 ['xsdgen/xsdgen.go', 'xsdgen/config.go', 'wsdlgen/wsdlgen.go', 'internal/gen/gen.go'],
 [('identifiers', 'internal/gen Ident'), ('struct tags', 'internal/gen String, tag, quote'), ('comments', 'internal/gen CommentGroup, Function.Decl')],
 claim=('interprocedural backward taint analysis with lexical contexts, from every place where text becomes Go source',
  '''Decides, for every place in xsdgen, wsdlgen and internal/gen where text becomes source (names of identifiers, texts of literals and comments in the syntax tree, texts that are parsed, templates, the formatted output, the results of NameOf and LookupName),
  that on every flow into it, through variables, fields, containers, parameters, results, formats and template holes, text of a document is quoted, reduced to letters, digits and underscores, or, in a line comment, cut at line feeds; the text around a hole decides which is needed.
  Fields are not told apart by object. Options, flags and functions the user supplies are trusted. Flows through constructs the analysis does not know are reported as undecided.'''))

prop('C10', 'Built-in types are complete and named canonically',
 '''The built-in types are exactly the types that XML Schema Part 2 defines (and four for the attributes of the XML namespace); each of the former has
 the name that the specification gives it, no two built-ins share a name, looking a built-in up by its name finds exactly that built-in, looking up any other name
 is an error, and every built-in maps to a Go type that can hold its values (integers of unbounded size: those that fit an int); exactly the built-ins mapped
 to time.Time or []byte, which encoding/xml cannot read or write as XML Schema prescribes, are given methods of their own.''',
 ['inputs'], 'every built-in type, and every name',
 'Tests touch a few built-ins; the tables are long and indexed by position.',
 ['xsd/builtin.go', 'xsd/builtin_string.go', 'xsdgen/builtin.go'],
 [('name table', 'xsd/builtin_string.go'), ('Go type table', 'xsdgen/builtin.go builtinTbl')],
 claim=('constant propagation through gated value graphs, compared with the tables of the specification',
  '''For every constant of type xsd.Builtin, Name, ParseBuiltin, the Go expression and the need for methods fold to constants and are compared with
  the specification's tables; the set of names ParseBuiltin accepts is compared as a decision diagram over arbitrary names.'''))

prop('C11', 'Generated methods type-check for every kind of type',
 '''The methods and helper declarations that are generated for built-in types, list types, wrapper types and service operations are
 valid, type-correct Go for every built-in type and every generation regime.''',
 ['inputs', 'configurations'], 'every built-in type as base, item type, field type or message part, and every threshold regime',
 'Tests compile the code generated for a few example schemas.',
 ['xsdgen/xsdgen.go', 'xsdgen/config.go', 'wsdlgen/wsdlgen.go', 'wsdlgen/helper.go'],
 [('method templates', 'xsdgen/xsdgen.go genSimpleListSpec, genComplexTypeMethods; xsdgen/config.go addStandardHelpers; wsdlgen/wsdlgen.go operation')],
 claim=('path-sensitive constant propagation through the functions that put methods together, for every built-in type; the resulting source is type-checked',
  '''For every built-in type, constants (texts, formats, the type) are propagated along the paths of each function of xsdgen that completes a method; every set of methods that a path completes is type-checked, with placeholders
  for names, on the type it belongs to; templates are filled for every built-in type, repeated or not, with and without default, alone and together. The client and operations of wsdlgen are type-checked in eight regimes. Which values
  the generator gives to the templates is C20 and C23. Generators whose texts cannot be followed are undecided.'''))

prop('C12', 'Parsed schemas contain only resolved types',
 '''In every schema that parsing returns, the type of every element, attribute and union member is a resolved type, and following the base of any type leads to
 a built-in type. References name the built-in type, the type of any of the documents or the element type of that name, and one to a type that does not exist is an error. A schema has every type declared
 in it, a type for the whole document, and a type for each top-level element that no type has the name of.''',
 ['inputs'], 'every set of documents',
 'Tests check a few schemas; each kind of reference and each order of declarations is its own case.',
 ['xsd/parse.go', 'xsd/xsd.go'], [('reference resolution', 'xsd/parse.go resolvePartialTypes, lookupType, addElementTypeAliases, endsInBuiltin')],
 claim=('value numbering: gated value-graph normal form of Parse and each step (loops summarised, effects in order) compared with reference definitions',
  '''Decides, for all documents, that linking (lookup, replacement of references, the check that bases end in a built-in type, types of elements and of the document, inheritance of mixed content) and Parse as the
  sequence of these steps do what the reference definitions in analyzer/spec/xsd/resolve.go.txt do. That the references give the property is an argument in DESIGN.md. Declarations are taken to become the types
  that C17 decides, normalization to do what C25 decides. Order of iteration over maps is left open. A step organised in a way no reference is is reported as undecided.'''))

prop('C13', 'Options take effect and can be reverted',
 '''Applying an option changes exactly the setting it names, and applying the option it returns restores that setting to its previous value.
 Every setting is consulted when code is generated, and options that add to a setting keep what was set before.''',
 ['histories', 'configurations'], 'every option and every sequence of applying and reverting options',
 'Tests apply the default options once and never revert them.',
 ['xsdgen/config.go', 'wsdlgen/config.go'], [('option constructors', 'xsdgen/config.go, wsdlgen/config.go')],
 claim=('value numbering: gated value-graph normal form of each option applied to an arbitrary configuration (settings changed, undo, value against argument or reference), plus a query for reads of each setting in reachable functions',
  '''Decides, for every configuration and argument, which settings each exported option changes, that the option it returns puts the previous values back, that options which add keep what was
  there, and that each setting is read by code reachable from the generating entry points. Log messages are not compared. What the handlers that the options install do with types is not covered here.
  An option organised in a way no reference is is reported as undecided.'''))

prop('C14', 'Namespace prefixes resolve to the innermost declaration',
 '''Resolving a prefixed name gives the namespace of the innermost declaration of that prefix in scope; the prefixes xml and xmlns always have
 their standard meaning; a prefix that is not declared is reported as such. Choosing a prefix for a name whose namespace is declared in scope gives one that resolves back
 to that namespace in the same scope. The scope of an element is that of its parent followed by its own declarations.''',
 ['inputs'], 'every scope, prefix and name',
 'Tests use scopes with few, distinct declarations; shadowing needs particular nesting.',
 ['xmltree/xmltree.go'], [('resolution', 'xmltree/xmltree.go ResolveNS, lookup, ResolveDefault, Prefix'), ('scopes', 'xmltree/xmltree.go pushNS, JoinScope, Element.parse')],
 claim=('value numbering: gated value-graph normal forms of the functions (loops summarised by one arbitrary iteration) compared with reference definitions',
  '''Decides, for all scopes and names, that Resolve, ResolveNS, ResolveDefault, Prefix and JoinScope compute what the reference definitions in analyzer/spec compute, and that the
  function that parses an element adds exactly its namespace declarations to its scope, removes them from its attributes, and hands that scope to its children. That the reference
  for Prefix inverts the one for Resolve is by its form (a declaration is used only if looking its prefix up gives the namespace). Rewrites organised in a way no reference is are reported as undecided.'''))

prop('C15', 'Attribute and element queries match by name and namespace',
 '''Looking up or setting an attribute, and searching for elements, act on those with the given local name and, when a namespace is given, that namespace;
 the first match is used, an existing attribute is replaced and a missing one added. Searching visits every descendant once, in document order.''',
 ['inputs'], 'every tree, namespace and name',
 'Tests query a few names in a few documents.',
 ['xmltree/xmltree.go'], [('queries', 'xmltree/xmltree.go Attr, SetAttr, Search, SearchFunc')],
 claim=('value numbering: gated value-graph normal forms of the functions (loops summarised by one arbitrary iteration) compared with reference definitions',
  '''Decides, for all trees, names and namespaces, that Attr, SetAttr, Search, SearchFunc and Flatten compute what the reference definitions in analyzer/spec compute.
  The predicate of SearchFunc is unknown code. A rewrite that organises the traversal in a way no reference does is reported as undecided, not as a violation.'''))

prop('C16', 'Occurrence constraints become plural and optional fields',
 '''An element declaration is plural exactly when its minOccurs or maxOccurs requires or allows more than one occurrence, and optional exactly when its minOccurs is 0 or it has
 a default value; an attribute is optional unless its use is required. The members of a choice, and of a sequence in a choice, have a minOccurs of 0. When a type declares an
 element more than once, it is plural, optional or nillable if one of the declarations is. In generated structs exactly plural elements become slices, and exactly optional or
 nillable elements and optional attributes are omitted when empty.''',
 ['inputs'], 'every combination of occurrence attributes',
 'Tests use a few combinations.',
 ['xsd/parse.go', 'xsdgen/xsdgen.go'], [('occurrence', 'xsd/parse.go parsePlural, parseElement, joinElem, setChoicesOptional'), ('fields', 'xsdgen/xsdgen.go genComplexType')],
 claim=('value numbering: gated value-graph normal forms of the functions that read declarations compared field by field with reference definitions; for generated fields, the exact conditions under which the type is a slice or the tag has omitempty',
  '''Decides, for all declarations, that the fields Plural and Optional (and Nillable, Abstract and Default of joined declarations) are what the reference definitions in
  analyzer/spec/xsd say, that the step of Normalize for choices changes what the reference changes, and that in package xsdgen the conditions for slices and omitempty are exactly the
  stated ones. Occurrence constraints on groups, sequences and choices themselves are not part of the property.'''))

prop('C17', 'Facets and attributes are recorded in the matching fields',
 '''Each facet of a restriction and each attribute of a declaration is recorded in the field documented for it, and in no other, whatever other facets and annotations
 surround it.''',
 ['inputs'], 'every facet and attribute, in every order',
 'Tests check a few facets.',
 ['xsd/parse.go'], [('facets', 'xsd/parse.go parseSimpleRestriction, parseElement, parseAttribute, parseSimpleType, parseComplexType')],
 claim=('value numbering: gated value-graph normal forms of the functions that make types, elements, attributes and restrictions, compared field by field with reference definitions',
  '''Decides, for every element tree, that each field of Restriction, Attribute, Element, SimpleType and ComplexType that these functions set is what the reference definitions in
  analyzer/spec/xsd say, whenever the function returns, and that it returns when the reference does. What reading the text of an annotation, parsing a date or compiling a pattern
  gives is left to the libraries; queries of element trees are decided by C14 and C15, the resolution of type names by C12. Code that walks the children in a way the references do not
  is reported as undecided.'''))

prop('C18', 'Dependencies are visited before their dependents, each once',
 '''Flattening a dependency graph visits every target and dependency exactly once, a dependency before what depends on it unless they are part of a cycle,
 and in the same order every time.''',
 ['inputs'], 'every dependency graph',
 'Tests flatten a few graphs.',
 ['internal/dependency/graph.go'], [('traversal', 'internal/dependency/graph.go Flatten')],
 claim=('value numbering: gated value-graph normal form of Add, Len and Flatten (recursion described by one arbitrary step, effects in order) compared with reference definitions',
  '''Decides, for every graph, that Add, Len and Flatten do what one of the reference definitions in analyzer/spec/dependency does. That the reference visits each node once, dependencies first and in
  ascending order, is an argument about the reference made in DESIGN.md. A traversal organised in a way no reference is is reported as undecided.'''))

prop('C19', 'Marshalled tags are balanced',
 '''Marshalling an element writes its start tag once, with its attributes and the namespaces that its scope adds to that of its parent, and, unless that tag is self-closing, exactly one matching end tag after its content or children;
 an element without content or children is self-closing, and children are written in order between their parent's tags. MarshalIndent starts each line with the prefix and one copy of the indentation per level.
 Errors of the writer end the marshalling and are returned. An element within itself is replaced by a comment, and what is nested more than three thousand deep is left out.''',
 ['inputs', 'fault_sequences'], 'every element tree, indented or not, and every writer',
 'Tests marshal a few documents.',
 ['xmltree/marshal.go'], [('encoding', 'xmltree/marshal.go encode, tagTmpl')],
 claim=('value numbering: gated value-graph normal form of the marshalling functions (recursion and loops described by one arbitrary step, effects in order, the output of text/template evaluated from its parse tree) compared with reference definitions',
  '''Decides, for every tree and writer, that Encode, Marshal, MarshalIndent and String write what the reference definitions in analyzer/spec/xmltree/marshal.go.txt write, under the same conditions and in the same order. Which prefix a name gets is decided by
  C14, escaping by C08. That the references write balanced tags is by their form. An encoder organised in a way no reference is is reported as undecided.'''))

prop('C20', 'Generated types keep the fields they inherit',
'''A generated struct has a field for every element and attribute of the type and of the types it is derived from that no filter excludes, with the Go type, name and tag that belong to it,
a member redeclared by the derived type replaces the inherited one, and no two fields of a struct have the same name.''',
['inputs', 'configurations'], 'every type hierarchy and filter',
'Tests generate code for a few hierarchies.',
['xsdgen/xsdgen.go', 'xsdgen/config.go'], [('inheritance', 'xsdgen/xsdgen.go expandComplexTypes, mergeAttributes, genComplexType, nameGenerator')],
claim=('value numbering: gated value-graph normal form of each step that chooses, names and merges fields (loops summarised, effects in order) compared with reference definitions',
'''Decides what the functions compute, given what built-in types are (C10) and that dependency graphs are walked in order (C18). The methods of a struct are not part of it (C11).'''))

prop('C21', 'Filters decide what is generated',
'''Code is generated for every type of a schema, and every element, attribute and port, that the configured filters do not exclude; for a type that they exclude, or a simple type that adds nothing to its base, only where a generated
type needs it. Elements, attributes and ports that the filters exclude do not appear.''',
['inputs', 'configurations'], 'every filter and document',
'Tests use the default filters.',
['xsdgen/xsdgen.go', 'xsdgen/config.go', 'wsdlgen/wsdlgen.go', 'wsdlgen/config.go'], [('filters', 'xsdgen filterFields, flatten, gen; wsdlgen printer.genAST')],
claim=('value numbering: gated value-graph normal form of each step that chooses what is generated (loops summarised, effects in order) compared with reference definitions; dominance rule for declarations kept by name',
'''Decides which types are handed to the functions that generate code and what becomes of their results. What a filter says is decided by C13. Two types with the same Go name are a known finding.'''))

prop('C22', 'Service descriptions are linked as they declare',
 '''Each port's operations are those of the port type that its binding names; each operation has the input and output messages, documentation and action declared for it, messages are kept by name with their parts, and
 each port of the service has the address and method declared for it, with names resolved in the scope they appear in.''',
 ['inputs'], 'every service description',
 'Tests parse a few service descriptions and check little of the result.',
 ['wsdl/wsdl.go'], [('linking', 'wsdl/wsdl.go parsePorts, parseOperations, parseMessages')],
 claim=('value numbering: gated value-graph normal form of each step of wsdl.Parse (loops summarised, effects in order) compared with reference definitions',
  '''Decides, for every service description, that Parse and the functions it consists of build what the reference definitions in analyzer/spec/wsdl build from it. Queries of element trees are taken to do what
  C14 and C15 decide. Of a description with several services the reference, like the code, keeps the ports of the last one.'''))

prop('C23', 'The generated client handles every outcome of a call',
 '''For each operation of a service a method is generated that takes the parts of the input message and returns those of the output message, in a structure where there are more of them than the thresholds allow,
 converted between the exposed and the generated types. The method calls the address, with the HTTP method and action, that are declared for the operation; the body of a POST or PUT request is a SOAP envelope with
 all arguments, under the names that are declared for them. The body of every response is closed, and every transport, encoding or decoding failure and every fault in the response is returned as an error.''',
 ['inputs', 'fault_sequences'], 'every operation, every choice of thresholds and every outcome of the exchange',
 'No test makes a call with the generated client.',
 ['wsdlgen/helper.go', 'wsdlgen/wsdlgen.go'], [('client', 'wsdlgen/helper.go do'), ('methods', 'wsdlgen/wsdlgen.go operation, opArgs')],
 claim=('value numbering: gated value-graph normal form of the generated client, of the generated methods (constant templates with placeholders in their gaps) and of the functions that fill the gaps, compared with reference definitions',
  '''Decides the client for every outcome of the calls it makes, and the functions that build operations for every service description; the template of a method is decided for eight combinations of the
  numbers of arguments and results and of wrapping. net/http and encoding/xml are taken to do as documented. Whether a response is decoded into the results is not part of the property (the envelope has no place for them; see DESIGN.md).'''))

prop('C24', 'Comparison is symmetric and considers every part of a tree',
 '''Two trees compare equal exactly if the names of their elements, their attributes other than namespace declarations, and their content (for elements without children) or children
 are equal, up to order of children, surrounding white space and prefixes; each child is paired with a distinct child of the other, so the result does not depend on
 which of the two trees comes first. Trees nested more than a thousand deep compare unequal.''',
 ['inputs'], 'every pair of trees',
 'Tests compare a few pairs.',
 ['xmltree/compare.go'], [('comparison', 'xmltree/compare.go equal, equalElement')],
 claim=('value numbering: gated value-graph normal form of the comparison (loops and recursion described by one arbitrary step) compared with reference definitions',
  '''Decides, for all pairs of trees, that Equal computes what one of the reference definitions in analyzer/spec computes. That the reference is symmetric is an argument about the reference
  (equality of names, of maps from attribute names to values, of trimmed content, and pairing of children under an equivalence), made in DESIGN.md, not by the analyser. A comparison organised in
  a way no reference is is reported as undecided.'''))

prop('C25', 'Normalization rewrites each construct to its documented equivalent',
 '''Normalizing schema documents yields every schema element in them and in the standard schemas, with elements and attributes without a type given anyType or anySimpleType, anonymous types named and moved
 to the top of the schema, members of a choice made optional, complex types without a content model turned into restrictions of anyType, and references to elements, attributes and groups replaced
 by what they refer to, unless that contains itself. Imports lists every import and include of a document with its namespace and location.''',
 ['inputs'], 'every set of schema documents',
 'Tests normalize a few documents, and check few of the rewritten trees.',
 ['xsd/parse.go'], [('normalization', 'xsd/parse.go Normalize, flattenRef, nameAnonymousTypes'), ('imports', 'xsd/parse.go Imports')],
 claim=('value numbering: gated value-graph normal form of Normalize, Imports and each step (loops summarised, effects in order) compared with reference definitions',
  '''Decides, for all documents, that each rewriting step, and Normalize as the sequence of the steps, has the effects that the reference definitions in analyzer/spec/xsd/normalize.go.txt have, in the
  same order. Queries of element trees are taken to do what C14 and C15 decide, the dependency graph what C18 decides. That the references state the documented rewriting is an argument in DESIGN.md.
  A step organised in a way no reference is is reported as undecided.'''))

# Behaviour that no static argument in reach bounds.
prop('R01', 'Marshalled documents parse back to an equal tree',
 '''Marshalling any tree and parsing the result gives a tree equal to the original, with or without indentation.''',
 ['inputs'], 'every element tree', 'Tests round-trip a few documents.',
 ['xmltree/marshal.go', 'xmltree/xmltree.go'], [('round trip', 'Marshal, Parse')],
 na='''Round-trip equality is a relation between run-time values of two programs (the encoder and encoding/xml's decoder); its structural conditions (escaping, balanced tags, prefix
 choice, complete comparison) are claimed as C08, C19, C14 and C24.''')

prop('R02', 'Generated types decode every valid document and encode it back',
 '''Values of the generated types can be decoded from every document valid against the schema and encoded back without loss.''',
 ['inputs', 'programs'], 'every schema and every instance document', 'The example schemas come with a few instance documents.',
 ['xsdgen', 'gentests'], [('generated methods', 'xsdgen')],
 na='''Quantifies over schemas and their instances, and over what encoding/xml does at run time with the generated types. The structural conditions (type-correct methods,
 complete fields, tags, plural and optional fields) are claimed as C11, C16, C20 and C21.''')

prop('R03', 'Generated packages always compile',
 '''For every schema, service description and option, the generated package compiles.''',
 ['inputs', 'configurations'], 'every document and option', 'The examples compile.',
 ['xsdgen', 'wsdlgen'], [('generators', 'xsdgen, wsdlgen')],
 na='''Whether names generated from arbitrary documents collide with each other, with Go keywords or with predeclared identifiers depends on the run-time strings. The part that is visible in
 the templates is claimed as C11 and what document text can do to the source as C09.''')

prop('R04', 'Memory use stays proportional to the input',
 '''Parsing and generating use memory and time polynomial in the size of the documents.''',
 ['inputs'], 'every document', 'Tests use small documents.',
 ['xsd/parse.go'], [('group expansion', 'xsd/parse.go flattenRef, unpackGroups')],
 na='''A quantitative bound on run-time sizes; nested group references multiply content, so no structural argument bounds it.''')

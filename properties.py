# the table of properties: p(id, title, statement, over, quantifier, why tests cannot, anchors..., claim, level note / not-applicable reason)
TODO = 'not claimed yet: no discharged contract decides it so far'
BASE = 'Deductive for the functions under contract (any object state, any sizes below 2^47, all paths, machine integers with wrap-around); the standard library, memcpy-like functions and the opaque element/key types are assumed to meet their contracts, and the composition over concrete element types, generated descriptors and file-backed buffers is covered by bounded harnesses on the real code. Termination is not proved.'

p('C01', 'Binary serialisation round trip restores every value exactly',
  'Packing any supported value (fundamental types, strings, enums, arrays of any dimension, pairs, standard containers and their nestings, std::array, tuples, and classes with bases, nested classes, private members and excluded members processed by classdesc) and unpacking it into an object of the same type, whatever that object held before, yields an equal value. Unpacking consumes exactly the bytes that packing produced, so values packed one after another come back in the same order; packing changes neither the object nor the bytes already in the buffer, and equal values give equal bytes. Excluded and const members and const targets are left untouched, and data that ends too early raises an exception instead of giving a value.',
  ['inputs', 'programs'], 'for all values of all described types, all previous states of the target and all sequences of packed values',
  'The tests pack a handful of fixed objects once into fresh targets; sizes, nesting, previous target contents and value ranges are unbounded.',
  ['pack_base.h', 'pack_stl.h', 'pack_epilogue.h', 'pack_stream.h', 'classdesc.cc'],
  [('pack/unpack overloads', 'pack_base.h'), ('container and string descriptors', 'pack_stl.h'), ('generated access_pack/access_unpack', 'classdesc.cc')],
  True, BASE)

p('C02', 'The serialisation buffer is a byte FIFO that never reads past its data',
  'Whatever is written to a buffer is appended after all earlier data, unchanged and without disturbing it, and reads return the written bytes in order, advancing the read position by exactly the amount read and leaving the data in place. A read that asks for more than the remaining data throws a pack_error and changes neither buffer nor position; resetting, seeking, clearing, resizing, swapping and moving buffers change exactly the size, position and content their names say. The same holds for buffers backed by a file.',
  ['histories', 'inputs'], 'for all sequences of buffer operations with all lengths and contents',
  'The tests run a few fixed sequences; boundary lengths, mixed sequences and partially read buffers are never enumerated.',
  ['pack_base.h'], [('pack_t::append/popoff/packraw/unpackraw/resize/clear/swap/seek', 'pack_base.h')],
  True, BASE+' Buffers on a stream and construction by move are under contract too (the C library\'s stream functions by contract: position, length and contents, any of which may fall short).')

p('C03', 'Buffer comparison is a total order, and deep comparison agrees with it',
  'Comparing two buffers returns -1, 0 or 1: a shorter buffer is less, buffers of equal length are ordered by their bytes taken as unsigned values, and ==, !=, < and > are exactly consistent with that result. The result depends only on the contents, not on read positions, and comparing changes nothing. deepCmp and deepEq of two serialisable values are the comparison of their packed forms, so deepEq holds exactly when the packed forms are identical.',
  ['inputs'], 'for all pairs and triples of buffers and of serialisable values',
  'Tests compare a few buffers with equal or differing first bytes; order laws quantify over all contents, lengths and positions.',
  ['pack_base.h'], [('pack_t::cmp and operators', 'pack_base.h'), ('deepCmp/deepEq', 'pack_base.h')],
  True, BASE)

p('C04', 'XDR buffers hold the portable XDR encoding, and values survive them',
  'Packing values into an xdr_pack appends their XDR (RFC 4506) encoding: big-endian units of 4 bytes, 8 for long long and double, a long in 4, and raw bytes (character arrays, string contents) padded with zeros to a multiple of 4; unpacking in the same order restores equal values and consumes exactly their encoding, for buffers of any size, in memory and in files. A read beyond the remaining data throws pack_error and leaves the position unchanged, and a long beyond 32 bits or a long double throws pack_error instead of storing another value. Resetting, seeking, clearing, resizing, swapping, moving and comparing xdr_pack buffers act as they do for pack_t.',
  ['inputs', 'histories'], 'for all values, raw lengths, buffer sizes and sequences of operations',
  'The test packs a couple of small structures; encodings, truncations, sizes beyond the first chunk and histories of buffer operations are not enumerated.',
  ['xdr_pack.cc', 'pack_base.h'], [('xdr_pack members, XDR_filter', 'xdr_pack.cc'), ('xdr_pack, pack of char arrays', 'pack_base.h')],
  True, 'Deductive for append, popoff, packraw, unpackraw (every basic type, against contracts on the XDR library), constructor, reset and seek of memory buffers; the encoding of the XDR library itself, files, swap, move and containers are decided by a bounded harness against an independent encoder.')

p('C13', 'A MultiArray addresses its elements column-major, and iterates over every slice once',
  'For extents d0..dr given as arguments or as an array of dimensions, subscripting x[ir]...[i0] refers to the element at offset i0+d0*(i1+d1*(i2+...)) of the underlying data, size() is the last extent, and the subscripted object is a view: writing through it changes that element only. Iterating from begin() to end() visits the slices x[0]..x[size()-1] once each in order; ++, -- and += move by whole slices and return the values their names say. same() holds exactly for views of the same data, const and non-const access agree, and the same results hold in C++11 and in C++17.',
  ['inputs', 'configs'], 'for all ranks, extents, subscripts and iterator movements, in both language versions',
  'The tests walk one or two fixed shapes; extents, ranks, the two constructors and negative movements are not enumerated.',
  ['multiArray.h'], [('MultiArray, its iterators and advance', 'multiArray.h')],
  True, 'Deductive for ranks 1 to 5 with symbolic extents whose product fits in memory, symbolic subscripts and iterator positions, in C++11 and C++17; a bounded harness replays small and random shapes on the real code.')

p('C06', 'A ref counts exactly the refs to its payload and releases it exactly once',
  'After any sequence of constructing, copying, assigning (from a ref or from a value, also one owned by the payload being released), swapping, nullifying, dereferencing and destroying refs, refCount() of a ref equals the number of existing refs to the same payload, and each payload is destroyed and freed exactly once, when that number becomes zero, and never used afterwards. Assigning a ref shares the payload; assigning a value makes an independent payload; dereferencing a null non-const ref creates a default one; nullref, bool, ==, != and < reflect payload identity (or value, compared with a value). When a payload constructor throws, every ref is left as it was and nothing leaks.',
  ['histories'], 'for all sequences of operations on any number of refs to any number of payloads, including linked structures',
  'The tests make a handful of copies; counts, aliasing and release order depend on the history.',
  ['ref.h'], [('ref', 'ref.h')],
  True, 'Deductive per operation with symbolic counts, for an opaque class whose constructors may throw and for linked nodes of depth 3 (all aliasing shapes); histories follow by induction over operations since each contract preserves count = number of refs. Bounded random histories on the real code in addition.')

p('C07', 'Smart pointers and polymorphic objects survive serialisation with their dynamic type',
  'Packing a smart pointer (shared or unique; to a plain class, a PolyPack or PolyXML hierarchy, or the object hierarchy; a poly or polyref) and unpacking it into another, whatever that one held, yields null for null and otherwise an object of the same dynamic type and value, followed by whatever was packed next; other owners of what it held keep it unchanged, an object nobody owns any more is deleted exactly once, nothing leaks; a weak_ptr is packed likewise and never retargeted, its live target being assigned the value. An unregistered or unsuitable type code and truncated data raise an exception and leave a valid pointer. Factory and object::create make a new object of exactly the type registered and throw for any other code; clones and copies of poly are deep, copies of polyref are shared.',
  ['inputs', 'histories'], 'for all dynamic types, contents, prior states and sharing of the target, and failing constructors or contents',
  'The tests restore one or two objects into fresh pointers; aliasing with other owners, null, wrong type codes, exceptions and deletion counts are not sampled.',
  ['polyAccessPack.h', 'polyAccessXMLPack.h', 'polyBase.h', 'polyPackBase.h', 'object.h', 'poly.h', 'factory.h', 'pack_stl.h'],
  [('pack/unpack of smart pointers', 'polyAccessPack.h'), ('pack_smart_ptr', 'pack_base.h'), ('object, Object, register_with_factory', 'object.h'), ('poly, polyref', 'poly.h'), ('Factory', 'factory.h'), ('PolyBase, Poly', 'polyBase.h')],
  True, 'Deductive for pack and unpack of shared_ptr, unique_ptr, weak_ptr (plain and polymorphic), shared_ptr<object>, and for poly, object, Factory, Poly and PolyPack members, over opaque classes whose members may throw, with symbolic numbers of owners; XML, polyref and whole hierarchies by a bounded harness. auto_ptr and tr1 are not exercised.')

p('C17', 'BinStream writes plain objects as their bytes and restores them',
  'Streaming into a BinStream or BinStreamT appends to its buffer exactly the bytes of each plain object (of basic type, struct or array), and for each standard container of such objects the number of elements as a size_t followed by the elements in order; each is one raw datum of the underlying pack_t or xdr_pack. Streaming out in the same order restores equal values, whatever the targets held, and consumes exactly what was written, in memory and in files; a size or object beyond the data of a memory buffer raises an exception.',
  ['inputs', 'histories'], 'for all object and element values, container kinds and sizes, prior contents of the target and both buffer types',
  'The test streams a few small values of equal size into empty targets; sizes, orders, prior contents, truncation and files are not sampled.',
  ['pack_base.h', 'pack_stl.h'], [('BinStream, BinStreamT', 'pack_base.h'), ('BinStream, vectors', 'pack_stl.h')],
  True, 'Deductive for << and >> of opaque objects, arrays, basic types and all seven standard containers of opaque objects with symbolic size and prior contents, on the contracts of packraw and unpackraw (C02, C04); truncation, BinStreamT, files and the bytes of xdr_pack by a bounded harness against an independent byte model.')

p('C12', 'Enum symbols and values are mapped to each other as declared',
  'For every enum processed by classdesc -typeName (plain, scoped, nested, in namespaces, with any initialisers, aliases, comments, trailing commas or underlying types whose values fit in an int), each symbol maps to its declared value and each declared value to a symbol with that value (its own when the value is unique), so value to symbol to value is the identity; unknown symbols map to 0 and unknown values to the empty string, has() tells which are known, and iteration visits each distinct value once in increasing order with its symbol. Enum_handle, to_string, streaming, dump and XML use those symbols, and assignment through Enum_handle from a symbol, an int or an enum stores exactly that value. Enums are packed as their int value and unpacked to the same value, as objects or as class members, without touching other members.',
  ['inputs', 'programs'], 'for all enum declarations, all enumerators and all values',
  'The tests list a few three-valued enums; initialisers, aliases, scopes and unknown values are not covered.',
  ['classdesc.h', 'classdesc.cc', 'pack_base.h', 'xml_pack_base.h', 'xml_unpack_base.h', 'dump_base.h'],
  [('EnumKeys and Enum_handle', 'classdesc.h'), ('emission of symbol tables', 'classdesc.cc')],
  True, 'Deductive for EnumKeys and Enum_handle: for any table (any number of entries, any names and values) the constructor establishes the two maps, and lookup is proved against them; std::map and std::string are assumed contracts. The table emitted by classdesc is checked on randomly generated declarations only (bounded).')

p('C15', 'Functions and methods are applied to exactly the given arguments, in order',
  'apply(), bound methods and calls on a buffer (callOnBuffer, PackFunctor) call the given function, function object, static method or method exactly once, on the bound (or rebound) object, with the elements of the argument vector or the values extracted from the buffer in parameter order, converted to the parameter types, and deliver its result. PackFunctor::pack writes the arguments in order with the types of the signature; a bound method that may not be called (non-const method of a const object, pointer or non-const reference parameters) throws instead of calling, as does a buffer holding too few arguments. Arity, Return, Arg, ClassOf and the is_* predicates describe every signature (const, noexcept, static, any arity) correctly, in C++98, C++11, C++17 and with the unrolled definitions.',
  ['inputs', 'configs'], 'for all signatures and argument values, in all language modes',
  'The tests call functions of up to three ints; argument order, types, constness and arity are a product space.',
  ['function.h', 'functiondb.h', 'functiondb.sh'], [('apply, bound_method, CallOnBuffer, PackFunctor', 'function.h'), ('unrolled definitions', 'functiondb*.h')],
  True, 'Deductive per instantiated arity (0 to 8, seven parameter types, four language modes) for all argument values, with opaque functions, argument vectors and buffers; arities up to 20 and other types are covered by a bounded harness.')

p('C14', 'typeName gives each type its own C++ spelling',
  'For every type T built from fundamental types, std::string, classes, enums and class templates with type parameters (variadic ones included) that were processed by classdesc -typeName, pointers, references, const, arrays of any rank, std::pair, std::tuple, the standard containers (with default comparators and allocators), smart pointers, Exclude and Enum_handle, typeName<T>() is the fully qualified C++ spelling of T up to white space (pointers and references to arrays, whose spelling is not that of the array followed by * or &, excepted), scopes in order, template arguments and dimensions in order, const where it applies. Hence distinct such types have distinct names, whatever the headers look like and in all language modes.',
  ['programs', 'configs'], 'for all such types, all nesting and all processed headers',
  'The tests compare a dozen names; types nest without bound, and names key type registries, XML element names and enum tables.',
  ['classdesc.h', 'typeName_epilogue.h', 'classdesc.cc'], [('tn, typeNamep, varTn', 'classdesc.h'), ('const and pointer names', 'typeName_epilogue.h'), ('emission of typeName', 'classdesc.cc')],
  True, 'Deductive for each type constructor over element types of opaque name (so for all nesting, by induction over the type); the names classdesc emits for classes, enums and templates are checked on random headers and types in five language modes (bounded). Outside: function types, rvalue references, volatile, wchar_t, other allocators or comparators, non-type template parameters and partial specialisations.')

p('C16', 'random_init gives every member a valid random value',
  'random_init draws numbers in [0,1) from its source (the default source never returns 1) and gives every element of an object a value, once each and in order: integers floor(max*draw) of their type, characters and wide characters a printable ASCII character, bool either value, floating point numbers a fraction of their maximum, enums a declared value, strings and resizable containers int(10*draw) elements (so 0 to 9) each initialised, sets and maps that many freshly initialised elements inserted, keys included, arrays all elements in every dimension, pairs and classes each member, owning smart pointers a new object. The hook random_init_normalise is applied to each object after its members. Nothing else changes: constants, raw pointers and what they point to, Exclude members and other owners of a shared object; and no conversion is undefined whatever is drawn.',
  ['inputs', 'programs'], 'for all sequences of draws, all types built from these and all previous states of the object',
  'The tests initialise two objects and compare three members; extreme draws, container and array kinds and members left out are not sampled.',
  ['random_init_base.h', 'random_init_epilogue.h'], [('random_init, random_initp, random_init_t', 'random_init_base.h'), ('random_init_smart_ptr and the generic case', 'random_init_epilogue.h')],
  True, 'Deductive over an endless stream of draws for every overload on opaque elements (containers and arrays of any size, ranks 1 to 6), with exact interval arithmetic for the floating point expressions (rounding is monotone); floating point members, smart pointers, unordered containers and generated classes by a bounded harness with an independent account of the draws.')

p('C05', 'Pointer graphs and trees come back isomorphic, each object once and owned once',
  'Packing a pointer in graph mode (ptr_flag GRAPH, #pragma graphnode, or a ref) and unpacking it gives an isomorphic graph of new objects: null, shared and cyclic links and all values are reproduced whatever the recursion limit, the original is unchanged, exactly the packed bytes are consumed, and every new object is distinct, handed to the buffer (or its ref) and freed exactly once. Tree mode (TREE, #pragma treenode) copies a tree the same way, null to null; without a mode packing a pointer throws and does nothing. An exception on the way (bad data, allocation, a failing device) leaks nothing and leaves later packing and unpacking unaffected.',
  ['inputs', 'histories', 'faults'], 'for all graphs of a node type reached from one packed pointer, all recursion limits, all contents of the data and all points of failure',
  'The tests pack one small tree and ring; sharing patterns, limits, and exceptions in the middle of a recursive traversal with static state are unbounded.',
  ['pack_graph.h', 'pack_base.h', 'ref.h'], [('pack_graph, unpack_graph and their static tables', 'pack_graph.h'), ('PtrStoreRef, access_pack<T*>', 'pack_base.h')],
  True, 'Deductive for one step of the traversal from any state of the tables and any depth (the contents of a node and the call for a deferred reference are contracts; the step is proved to keep those contracts), for pack, unpack, tree mode, dispatch and PtrStoreRef; std::map and std::vector are contracts. That matching steps give an isomorphic graph follows from the two contracts step by step (DESIGN.md) and is exercised by a bounded harness, which also covers refs, pragmas and faults. Termination is not proved. Links held in containers are covered below the recursion limit only (known finding).')

p('C11', 'Generated descriptors hand over every base and member of a class exactly once, in order',
  'For every class, struct or class template definition classdesc accepts (members of any type, several declarators, arrays, initialisers, static and const members, nested classes, friends, templates, comments and strings in any place, namespaces, -respect_private, -onbase, -use_mbr_pointers, -overload), the generated descriptor compiles and calls its action exactly once for each base class, each data member and each method with an address, in declaration order, with the member\'s own name, the object itself and the member it names; array members come with their dimensions and static constants by value. Nothing else is handed over: no private member under -respect_private, no deleted, overloaded (unless -overload), template or operator method, no function argument, local, friend or member of another class.',
  ['programs', 'configs'], 'for all class definitions in the supported subset of C++ and all option combinations',
  'The tests process a few fixed headers; declaration forms and their combinations form an infinite language, and a member the parser loses is silently not serialised.',
  ['classdesc.cc', 'tokeninput.h', 'classdesc.h'], [('parse_class, register_class and the emission of descriptors', 'classdesc.cc'), ('tokens and delimiters', 'tokeninput.h')],
  True, 'The code classdesc emits is regenerated from the current classdesc and verified against contracts derived from the compiler\'s own description of each class: deductive for every object and every point at which an action throws, for a fixed corpus of some 50 definitions under five option sets. The parser itself is not under contract; other definitions are covered by randomly generated classes (bounded). Outside the subset (loud: the output does not compile): local classes in out-of-line functions, enums in class templates, private bases without -respect_private, anonymous structs.')

p('C08', 'XML serialisation round trip restores every value',
  'Writing any supported value (fundamental types except wide characters, strings of any bytes 1 to 127 and multibyte characters, CDATA, enums, pairs, standard containers, arrays, tuples of elements of differing types, and classes processed by classdesc) with xml_pack, pretty printed or not, and reading the document with xml_unpack under the same root name restores an equal value, whatever the target held before; floating point values come back at the precision of the stream. Everything a document does not mention is left as it was in the target (or, with missingException set, reported by xml_pack_error).',
  ['inputs', 'programs', 'configs'], 'for all values of all described types, all previous states of the target and all partial documents',
  'The tests write one fixed object without special characters, empty strings or containers, missing elements, or names that are prefixes of each other.',
  ['xml_pack_base.h', 'xml_unpack_base.h', 'xml_common.h', 'xml_pack_epilogue.h', 'xml_unpack_epilogue.h'],
  [('xml_pack_t and xml_pack overloads', 'xml_pack_base.h'), ('xml_unpack_t and xml_unpack overloads', 'xml_unpack_base.h'), ('CDATA and tags', 'xml_common.h')],
  True, 'Deductive for every writer and reader leaf, container, pair, array (ranks 1 to 3), enum and class wrapper, over uninterpreted text with concatenation: what is written for which path, and what is read from which path (any path, any length). std::string, streams and std::map are contracts; that the text printed for a number is read back as that number is assumed of the standard library. The composition over concrete types is checked on random values and partial documents in C++98 and C++17 (bounded).')

p('C09', 'The XML written is well formed and mirrors the structure of the object',
  'For every supported value and root path, xml_pack writes one well-formed element named after the root, with one child element per member, element or pair component, in order, each named after the member (elements of containers after their type, without template arguments), with every character of the text that has a meaning in XML written as a reference and CDATA written as CDATA sections with the same text. With a schema the root carries it as its xmlns; prettyPrint puts each element on its own line indented by its level and changes no text, and without it nothing but the elements is written. Several objects may be written one after another, and a failing output stream raises an exception.',
  ['inputs', 'configs'], 'for all values, all texts, all member names, nesting depths and settings',
  'The tests never look at the document, they only read it back with the same library.',
  ['xml_pack_base.h', 'xml_common.h', 'xml_pack_epilogue.h'],
  [('xml_pack_t::Tag, startTag, endTag, pack', 'xml_pack_base.h'), ('xml_quote', 'xml_pack_base.h')],
  True, 'Deductive for the quoting of every character and text (any length), for start and end tags, indentation and each xml_pack overload over uninterpreted text; whole documents are checked by an independent XML reader on random values (bounded).')

p('C10', 'The XML parser delivers exactly the content of a document and rejects what is not one',
  'Parsing a well-formed document from a stream, a FILE* or a file gives for every element its attributes and its own text with references replaced, CDATA taken literally, comments, processing instructions, DOCTYPE and white space left out, under the path of names each with its number among siblings of the same name, and nothing else; count, exists and unpack report exactly that, and parsing stops after the root element. Input that ends early or whose end tags do not match, with an unknown reference or a malformed tag, raises xml_pack_error, and no input whatever leads to another exception, undefined behaviour or a hang.',
  ['inputs'], 'for all byte sequences',
  'The tests parse a few documents classdesc wrote itself; comments, CDATA, attributes, entities, truncation and damage are an infinite language.',
  ['xml_unpack_base.h'], [('XMLtoken', 'xml_unpack_base.h'), ('xml_unpack_t::parse and process_attribute', 'xml_unpack_base.h')],
  True, 'Deductive for parse (element and document) and process_attribute over any sequence of tokens: the result equals that of a machine stated independently, including which sequences are rejected. The scanner that makes tokens of characters is checked against an independent XML reader on generated, truncated and damaged documents and all short strings over a markup alphabet (bounded).')

p('C18', 'The generated XML schema describes what xml_pack writes',
  'The schema xsd_generate writes is a valid XML schema that defines each class met once, naming its members in declaration order with their XSD types (optional exactly when held by a shared_ptr), base classes as extensions or as elements as xml_pack writes them, containers as sequences of any length and arrays, pairs and tuples as sequences of exactly their elements, and the root element with the type of the object. Every document xml_pack writes for an object of the class validates against it; documents in which a member that is not optional is missing, renamed, repeated or out of order, or in which a value is not of its type, do not.',
  ['inputs', 'programs'], 'for all classes made of the supported kinds of members, all nesting, sharing and recursion of classes, and all object values',
  'The tests compare the schema of one class and one document; combinations of kinds, namespaces, inheritance, optional members and recursion are not covered.',
  ['xsd_generate_base.h'], [('xsd_generate_t, xsd_generate', 'xsd_generate_base.h')],
  True, 'Deductive for the methods of xsd_generate_t on the text of the definition (for any state and any names) and for the xsd_generate functions on the calls they make (fundamental types, strings, classes, base classes, containers, maps, pairs, tuples, arrays of rank 1 to 5, shared_ptr, excluded members) with opaque element classes. The text of enumerations, the order of definitions in the output, and the validity of schema and documents as a whole (xmllint) are bounded: random classes and objects.')


p('C19', 'MPI buffers deliver what was sent, whatever the number of processes',
  'In every MPI program, for any number of processes, contents and schedule: what is sent with send or isend (as methods or manipulators) is what get restores, with proc and tag those of its sender, and only a message of the source and tag asked for is taken; a message to oneself is not sent and leaves the buffer; send_recv exchanges contents; bcast leaves every process with the contents of the root; gather leaves the root with the contents of all processes in order of rank (const_buffer or not); scatter gives process i the contents between marks i-1 and i, and the buffer can be marked and scattered again; reading then starts at the first byte. Copies and assignments have the contents of the original and no pending request. MPIbuf_array reports the requests that have completed and forgets them. An MPIslave runs each command once on the slave it was sent to, returns its result exactly when a tag is set, keeps the list of idle slaves, broadcasts the given buffer to every slave, and ends the slaves when it goes.',
  ['inputs', 'configs', 'schedules'], 'for all numbers of processes, contents, sizes, ranks, roots, tags and schedules of messages, with xdr_pack buffers too',
  'No test runs under MPI here; the number of processes, the order in which messages arrive, the sizes per process and the prior contents of the buffers make a space that tests do not sample.',
  ['classdescMP.h'], [('MPIbuf, MPIbuf_array, MPIslave', 'classdescMP.h')],
  True, 'Deductive for all methods of MPIbuf (one process at a time, for any number of processes, rank, contents and prior state), the queries of MPIbuf_array and the methods of MPIslave but the loop of a slave (init on ranks above 0, method): the calls made to MPI and the state left behind. What the MPI functions do is an assumed contract per process. The whole exchange between processes, the loop of the slaves, and xdr_pack buffers are bounded: random programs on a simulated MPI (threads, random schedules).')

p('C20', 'dump describes every part of an object with its name and value',
  'dump writes, for any object of a class processed by classdesc -dump (const or not, to any ostream or dump_t), each base and member that is not excluded once, in declaration order, and nothing for methods: a number, character, bool, string or static constant as one line of as many spaces as its path has dots, its name, a colon and its value as << writes it; classes in braces, with enums shown by their symbol in braces; containers and arrays (of any rank) of numbers as one line with all elements in order, each preceded by that indentation, and of anything else with each element between braces under its name and index; the elements of maps and pairs as key in brackets, then value; a shared_ptr as what it refers to, or null. The object is not changed.',
  ['inputs', 'programs'], 'for all classes made of these kinds, nested without bound, and all object values and paths',
  'The only test of dump looks at no output; kinds, ranks, depths and empty or null values are a product space.',
  ['dump_base.h', 'dump_epilogue.h'], [('dump, dump_container, format', 'dump_base.h'), ('Format, dumpp', 'dump_epilogue.h')],
  True, 'Deductive for every overload over uninterpreted text: fundamental types, strings, enums, classes, base classes, seven containers of numbers, of opaque objects and maps (any size), pairs, arrays of rank 1 to 5, shared_ptr, const, excluded members and methods; and for format() for any path. The construction of a dump_t from a stream, the descriptors classdesc emits and compositions of kinds are bounded: random classes and objects.')

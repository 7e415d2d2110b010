import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PA="src/parse/parser.rs"; CS="src/parse/char_stream.rs"; FM="src/parse/format.rs"; UT="src/parse/util.rs"; PE="src/parse/error.rs"
p("C01","Loading any input yields an object or an error, never a crash or a hang",
 "Loading any text or file, whether well-formed, malformed, adversarial or not even valid UTF-8, ends in either an object or an error value. It never panics, aborts, overflows the stack or fails to terminate, and neither does releasing what was loaded.",
 ["inputs"],"all byte strings as text or file content (excluding documents whose own arithmetic or concatenation asks for astronomically large values)",
 "the tests load about 80 fixed files; a crash needs one particular byte sequence, length or nesting among infinitely many",
 [PA,CS,UT,"src/parse/mod.rs"],[("explicit end-of-input and delimiter checks before every character read","src/parse/parser.rs parse_*"),("recursion depth limit","src/parse/mod.rs MAX_DEPTH")],
 ["Obj::from_str","Obj::from_file","process exit status","CPU time and live heap of the load"])
p("C02","A well-formed document loads as exactly the data it writes down",
 "For every well-formed document, the loaded object has exactly the fields the document defines, at every level and in document order, each bound to the value that the document's literals, containers, operators and references denote in the documented language. Nothing is dropped, added, reordered, duplicated or changed in type on the way.",
 ["inputs","programs"],"all well-formed documents",
 "the tests compare a dozen fixed documents field by field; combinations of nesting, references, operators and layout are unbounded",
 [PA,CS,"src/obj.rs","src/arr.rs","src/tup.rs"],[("recursive-descent evaluation","src/parse/parser.rs parse_obj_stream, parse_field_value_pair, parse_value")],
 ["Obj::from_str","Obj::from_file","pairs_ref/values_ref/get_parent of the result"])
p("C03","Arithmetic in documents is exact, with the documented precedence and types",
 "Integer and fraction arithmetic (+ - * / % and unary signs) gives the exact arbitrary-precision result, with unary signs binding tightest, then * / %, then + -, each level from left to right; dividing integers or mixing integers with fractions gives a fraction, and % is the remainder of truncating integer division. + also concatenates strings and arrays of compatible type, leaving its operands unchanged. Every other combination of operand types, and division or remainder by zero, is rejected.",
 ["inputs","programs"],"all expressions over all operand values and types",
 "about 40 fixed expressions with small operands are tested; precedence chains, sign combinations, huge operands and type pairs are not enumerated",
 [PA,"src/parse/mod.rs"],[("operand/operator deques with immediate evaluation of priority operators","src/parse/parser.rs parse_value"),("typed operator dispatch","src/parse/parser.rs binary_op_on_values, unary_op_on_value")],
 ["Obj::from_str"])
p("C04","Number and string literals denote exactly what is written",
 "A number literal of any length denotes exactly the written integer, or the written decimal as an exact fraction, ignoring single underscores, leading zeros and trailing zeros. A string literal denotes exactly the characters between the quotes, of any kind and number including line breaks and comment marks, with only the escapes \\\\ \\\" \\' \\$ \\n \\r \\t replaced; any other escape is rejected.",
 ["inputs"],"all number and string literals",
 "a few dozen literals are tested; digit counts, separator positions, scalar values and escape sequences are unbounded",
 [PA,UT],[("digit accumulation and exact decimal-to-fraction conversion","src/parse/parser.rs parse_numeric; src/parse/util.rs frac_from_whole_and_dec"),("escape handling","src/parse/parser.rs parse_str; src/parse/util.rs get_escape_char")],
 ["Obj::from_str"])
p("C05","Every array holds elements of one type, and reports that type",
 "An array exists only if all its elements have mutually compatible types, whether it comes from a literal, an included file, a concatenation or the checked construction API; anything else is rejected in each of these ways. Its reported element type is the most specific type compatible with all elements, with 'unknown' only where only empty arrays occur, and does not depend on the order of the elements or on which of these ways made it.",
 ["inputs","programs"],"all element sequences and all ways of building an array",
 "a handful of type mixes is tested; the incremental type narrowing depends on element order, nesting and where empty arrays occur",
 [PA,"src/arr.rs","src/types.rs"],[("incremental narrowing of the element type","src/arr.rs from_values; src/parse/parser.rs parse_arr, parse_arr_file"),("type join on concatenation","src/parse/parser.rs binary_op_on_values")],
 ["Arr::from_values","Obj::from_str","inner_type"])
p("C06","Type compatibility is a lawful unification with unknown element types",
 "The most specific common type of two types exists exactly when they can be made equal by filling in unknown parts, is the same whichever type comes first, is exactly that filled-in type, and comes with a flag that is true exactly when an unknown part remains. Type equality holds exactly when two types agree up to unknown parts, strict identity holds exactly when they are the same including unknown parts, and every value reports the type that its content has.",
 ["inputs"],"all pairs of types and all values",
 "two or three pairs are tested; the definitions recurse through nested arrays and tuples of any shape",
 ["src/types.rs","src/value.rs","src/tup.rs"],[("structural recursion","src/types.rs most_specific, has_any, is, PartialEq"),("type computation","src/value.rs get_type")],
 ["Type::most_specific","Type::is","Type == Type","Type::has_any","Value::get_type","Tup::inner_type_vec"])
p("C07","Names resolve only where the language says they are visible",
 "A plain name resolves only to a field defined earlier in the same object (arrays and tuples in it included), never to a later, enclosing, inner or sibling object's field. A global resolves anywhere in its own file after its definition, at any nesting, never in another file, and never appears in the loaded data. Defining a field twice in one object, a global twice in one file, or a parent twice in one object is rejected.",
 ["programs"],"all documents and all placements of definitions and references",
 "tests use two fixed documents; scoping faults need a particular combination of nesting, order, shadowing and files",
 [PA],[("per-object field list and per-file global map passed down the descent","src/parse/parser.rs parse_obj, parse_field_value_pair, parse_variable")],
 ["Obj::from_str","Obj::from_file"],[("globals","globals defined so far in this file","src/parse/parser.rs GlobalMap")])
p("C08","Field lookup follows the chain of parents, nearest definition first",
 "Looking up a field, through the API or with dot notation in a document, gives the value of the object's own field if it has one, otherwise that of the nearest ancestor that has it, and fails only if none has; the source-reporting lookup names exactly the object that supplied it. Counting, containment and iteration report own fields only. A parent that is not an object is rejected.",
 ["inputs","programs"],"all objects with parent chains of any length, all field names",
 "one three-level chain is tested through the API and none through dot notation",
 ["src/obj.rs",PA,"src/macros.rs"],[("recursive lookup","src/obj.rs get, get_with_source"),("parent field","src/parse/parser.rs parse_field_value_pair"),("dot lookup","src/parse/parser.rs parse_variable")],
 ["Obj::get","Obj::get_with_source","Obj::get_*","Obj::contains/len/iter/with_each","Obj::from_str"])
p("C09","Dot notation selects exactly the named field or indexed element",
 "name.field, through any number of objects, gives that field's value; arr.i and tup.i, with i a literal, an integer field defined earlier in the same object, or a global integer, give element i counting from zero. A missing field, an out-of-range, negative or non-integer index, or a dot on any other kind of value is rejected, never answered with some other value.",
 ["inputs","programs"],"all access paths over all values in scope",
 "a dozen fixed paths are tested",
 [PA,"src/arr.rs","src/tup.rs"],[("dot handling","src/parse/parser.rs parse_variable"),("bounds checks","src/arr.rs get; src/tup.rs get")],
 ["Obj::from_str"])
p("C10","An include yields the named file's content as the requested kind of value",
 "An include finds its file relative to the directory of the file that contains it (the working directory for text loaded from a string) and yields an object, array or tuple with the meaning of that file's content, or a string with the file's exact content, according to the kind requested, each time, whatever else was included before. A missing, unreadable or malformed file or a path that is not a regular file is rejected.",
 ["inputs","configurations"],"all file trees, path spellings, requested kinds and orders of inclusion",
 "one fixed tree of seven files is tested, in one directory layout and one order",
 [PA,UT],[("path resolution and kind dispatch","src/parse/parser.rs parse_include"),("cache of processed includes","src/parse/parser.rs IncludedMap")],
 ["Obj::from_file","Obj::from_str"],[("included.0","values of files already processed in this load","src/parse/parser.rs IncludedMap")])
p("C11","Circular includes are always rejected, repeated ones processed once",
 "Including a file that is itself still being loaded, directly or through any chain of files and however the path is spelled (relative detours, absolute paths, symbolic links), is rejected with an error instead of recursing. A file included repeatedly without such a cycle is accepted, read once per requested kind in a load, and yields the same shared instance each time.",
 ["programs","configurations"],"all include graphs and all spellings of each edge",
 "a single self-include and one repeated include are tested",
 [PA],[("set of files on the current include path","src/parse/parser.rs parse_include"),("canonical paths as keys","src/parse/parser.rs parse_include")],
 ["Obj::from_file","ReferenceType::ptr_eq","file open events"],[("included.1","files currently being loaded","src/parse/parser.rs IncludedMap")])
p("C12","Writing an object and loading the result gives back an equal object",
 "For every object that was loaded or built with valid, distinct, non-reserved field names, its written form loads without error into an equal object: same fields in the same order, same values, same types, same parents. This holds for writing to a string and to a file, as long as the written form stays within the nesting limit.",
 ["inputs","programs"],"all objects whose written form nests at most to the documented limit",
 "ten fixed files are round-tripped; what must survive is every string content, number, nesting shape and parent combination",
 [FM,"src/obj.rs",PA,UT],[("formatter with escaping","src/parse/format.rs")],
 ["Obj::write_to_string","Obj::write_to_file","Obj::from_str","Obj::from_file"])
p("C13","The printed form of any value reads back as that value and is stable",
 "The display form of any value, array, tuple or object is itself valid source for a value equal to it, wherever a value may stand. Printing is deterministic and depends only on the data: equal data in the same order gives identical text, and writing what was just re-read reproduces the same text byte for byte.",
 ["inputs"],"all values",
 "no test looks at the printed form of single values or at repeated writing",
 [FM,"src/value.rs","src/arr.rs","src/tup.rs","src/obj.rs"],[("Format implementations used by Display","src/parse/format.rs")],
 ["Display of Value/Arr/Tup/Obj","Obj::write_to_string"])
p("C14","A malformed or ill-typed document is rejected, never silently accepted",
 "A document containing any lexical, syntactic, naming, typing or reference fault anywhere (stray or mismatched or missing bracket, bad escape or character, malformed number, reserved or invalid field name, missing separator or value, unknown name, type-incompatible operation, and so on) is rejected as a whole. No object is returned for it and no part of it is silently skipped or guessed.",
 ["inputs"],"all documents obtained from well-formed ones by any fault at any place",
 "about 65 fixed malformed files are listed, in a test that fails on the pinned toolchain already; each fault is tried at one place only",
 [PA,UT],[("explicit checks at every token","src/parse/parser.rs parse_err call sites, check_value_end")],
 ["Obj::from_str"])
p("C15","Every rejection says where and what the fault is",
 "The error for a faulty document names the file in which the fault occurs (if it was loaded from a file), the line (from 1, counting line feeds), and, unless the fault is a premature end, the column (from 1, counting characters) at which the offending token begins, together with the offending name, character or types (for a wrong closing bracket also the right one). This is so at any nesting, in included files, and after any mix of multi-line strings, comments, tabs and non-ASCII text.",
 ["inputs"],"all faulty documents with a single fault, all placements",
 "the only test of error texts uses fixed files with the fault at a fixed place, and does not pass on the pinned toolchain",
 [PE,PA,CS],[("line/column counters","src/parse/char_stream.rs next"),("positions passed into errors","src/parse/parser.rs"),("error texts","src/parse/error.rs")],
 ["text of OverError::ParseError"])
p("C16","Layout never changes meaning",
 "Replacing the white space and comments between tokens by any others (spaces, tabs, line breaks of either convention, other Unicode white space, comments with any content, at the start and end of the document too), or removing them where two tokens need none between them, changes neither the loaded data nor whether the document is accepted.",
 ["inputs"],"all documents and all layouts of each",
 "one file with a few layout variants is tested",
 [PA,UT,CS],[("skipping white space and comments","src/parse/parser.rs find_char"),("value end characters","src/parse/util.rs is_value_end_char")],
 ["Obj::from_str"])
p("C17","Equality of values is structural and lawful",
 "Two values are equal exactly when they have the same kind and the same content: elements pairwise equal for arrays and tuples, the same fields with equal values (in whatever order) and equal parents or both none for objects; identity, origin and sharing play no part. Equality is reflexive, symmetric and transitive, and comparing a value with a native integer, boolean, string or container gives the same answer from either side, true exactly when the value is that one.",
 ["inputs"],"all pairs of values, all native integers",
 "few pairs are compared, nearly all of them equal ones",
 ["src/obj.rs","src/arr.rs","src/tup.rs","src/value.rs"],[("PartialEq implementations","src/obj.rs, src/arr.rs, src/tup.rs, src/value.rs impl_eq, impl_eq_int")],
 ["=="])
p("C18","Accessors return exactly the stored value or the precise error",
 "For every value, a typed getter succeeds exactly when the value has that type (an integer also as a fraction) and returns the stored content unchanged; otherwise it reports a mismatch naming the expected and actual type, a missing field by name, or an out-of-range index by number. All views of a container (length, emptiness, iteration, visiting, indexing, reference to the elements) agree with each other and with what it was built from, and building values from native values or with the macros stores them unchanged.",
 ["inputs"],"all values, fields, indices and native numbers",
 "each getter is tried on one or two fields, mostly on the success path",
 ["src/value.rs","src/obj.rs","src/arr.rs","src/tup.rs","src/macros.rs","src/error.rs"],[("get_fn and impl_from macros","src/value.rs, src/obj.rs"),("bounds checks","src/arr.rs, src/tup.rs")],
 ["get_*","get","len/is_empty/iter/with_each/values_ref/pairs_ref","From/TryFrom"])
p("C19","Containers are immutable, uniquely identified, and shared by reference",
 "Every distinct container instance has an identifier no other instance ever has in the process; clones, and every mention of the same field, global or included file, are the same instance (same identifier, pointer-equal), while separately written containers never are. The reported reference count is exactly the number of live handles, and nothing done with a container (lookup, concatenation, inheritance, printing, use in a document) ever changes its content, identifier or element type.",
 ["inputs","histories"],"all histories of loading, building, cloning, dropping and reading containers",
 "a few counts and pointer comparisons are tested in one history",
 ["src/lib.rs","src/obj.rs","src/arr.rs","src/tup.rs",PA],[("atomic id counter","src/lib.rs gen_id"),("Arc-shared immutable contents","src/obj.rs, src/arr.rs, src/tup.rs")],
 ["id","num_references","ptr_eq","content walks"],[("CUR_ID","next identifier","src/lib.rs")])
p("C20","Concurrent use from many threads is race-free and gives sequential results",
 "Threads that load, build, read, print, compare, clone and drop documents at the same time, their own or shared ones, each observe exactly the results they would observe alone. Identifiers stay unique across threads, reference counts balance once the threads are done, and there is no data race.",
 ["schedules"],"all interleavings of any number of threads",
 "no test uses threads",
 ["src/lib.rs",PA,"src/obj.rs","src/arr.rs","src/tup.rs"],[("atomic counter","src/lib.rs gen_id"),("lazily initialised shared sentinels","src/parse/parser.rs"),("Arc","src/obj.rs, src/arr.rs, src/tup.rs")],
 ["results per thread","id","num_references","race detector reports"])
p("C21","Loading, using and dropping documents is free of memory errors",
 "No load of any input, successful or not, and no use or release of its result ever reads or writes memory it does not own, uses freed or uninitialised memory, frees twice, or otherwise invokes undefined behaviour.",
 ["inputs","histories"],"all inputs and all orders of use and release",
 "the parser keeps an unsafe self-referential character stream; tests run uninstrumented, where a dangling read usually goes unnoticed",
 [CS,PA],[("buffer kept alive next to the iterator borrowed from it","src/parse/char_stream.rs from_string_impl"),("stream handles share one buffer","src/parse/char_stream.rs CharStream")],
 ["AddressSanitizer, Miri and valgrind reports over workloads"],[("Inner.contents / Inner.stream","text and the lifetime-extended iterator into it","src/parse/char_stream.rs")])
p("C22","Every load releases all memory and files it used",
 "Once a load has failed, or its result and all handles derived from it have been dropped, all memory and all file descriptors taken by the load are released again, however many loads follow one another and at whatever point each of them failed.",
 ["inputs","histories"],"all inputs, success and failure paths, any number of repetitions",
 "no test measures memory or descriptors",
 [CS,PA,"src/obj.rs"],[("ownership by value, Arc and Rc without cycles","src/parse/char_stream.rs, src/obj.rs")],
 ["live heap bytes","open descriptors"])
p("C23","File reading and writing is complete, or reported as failed",
 "Writing an object to a file reports success only if the file then holds exactly the written form, replacing whatever was there, and reports an error if the system could not store all of it; loading a file gives exactly what loading its content as text gives, however the system splits or interrupts the reads, and an error if it could not be read fully. Loading never creates or modifies a file, and writing touches only the target.",
 ["fault_sequences","inputs"],"all contents and all sequences of short, interrupted and failing reads and writes",
 "tests only write and read small files on a healthy file system",
 ["src/util.rs","src/obj.rs",CS,UT],[("write_all / read_to_string with error propagation","src/util.rs write_file_str; src/parse/char_stream.rs from_file; src/parse/util.rs read_file_str")],
 ["Obj::write_to_file","Obj::from_file","system calls issued"])
p("C24","The nesting limit is exact and cannot be bypassed",
 "Containers and includes may nest up to the limit of 64 levels, the document itself being the first, in any mixture and at any place, and such documents load normally. Any document in which they nest deeper as written, including through chains of included files, is rejected with an error about the maximum depth. A file already loaded counts only where it was first loaded. Chains of unary signs or dots count towards the limit too, so those of unlimited length are rejected likewise instead of exhausting the stack.",
 ["inputs","programs"],"all mixtures of containers, includes, signs and dots, at all depths",
 "two files, one of pure objects and one of pure includes, test only rejection",
 [PA,"src/parse/mod.rs"],[("depth parameter and MAX_DEPTH checks","src/parse/parser.rs")],
 ["Obj::from_str","Obj::from_file"])
p("C25","Field names are accepted exactly when they follow the naming rule",
 "Checked construction accepts a set of fields exactly when each name is non-empty, starts with a letter (any alphabetic character) or underscore and continues with letters, decimal digits 0-9 or underscores, and otherwise reports the offending name. In documents the same names are accepted except the reserved words null, true, false, Obj, Str, Arr and Tup, with @ in front for globals and ^ for the parent only.",
 ["inputs"],"all names over all of Unicode",
 "a few valid names and four invalid ones are tested",
 ["src/obj.rs",PA,UT],[("character predicate","src/obj.rs is_valid_field, is_valid_field_char"),("field lexing and reserved words","src/parse/parser.rs parse_field; src/parse/util.rs is_reserved")],
 ["Obj::from_pairs","Obj::is_valid_field","Obj::from_str"])
p("C26","The outcome of a load depends only on the text and files it reads",
 "Loading the same text with the same file contents always gives the same data or the same error, whatever was loaded, rejected, modified on disk or dropped before in the process; after a file changes, the next load sees the new content. Loading text from a string and from a file with that content give the same data, and the same faults at the same positions.",
 ["histories"],"all histories of loads, failed loads and file modifications",
 "each test performs one load per file and never changes a file between loads",
 [PA,CS],[("all parser state is created per load","src/parse/parser.rs parse_obj_file, parse_obj_str")],
 ["Obj::from_str","Obj::from_file"])
p("C27","The cost of a load grows in proportion to what is loaded",
 "Loading a document, releasing it, and printing, reading or comparing what it holds take time and memory in proportion to the length of the text and of the included files: several times the same construct (lines, comments, characters, escapes, elements, nested containers, globals and their uses, includes, operators) costs about that many times as much. Values used many times are shared, so objects that use each other many times over do not multiply. Only the fields of one object, the digits of one number and the operands of one sum or product may cost more: at most the square of their number.",
 ["inputs"],"all documents, of any size, built of any constructs",
 "the tests load small documents, for which any cost is small",
 [CS,PA,FM],[("characters are read once and values kept by reference","src/parse/char_stream.rs next; src/parse/parser.rs find_char, parse_str, parse_arr"),
  ("text is printed into one buffer","src/parse/format.rs")],
 ["Obj::from_str","Obj::from_file","Obj::write_to_string","Arr::from_values","PartialEq for Obj, Arr and Tup"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))

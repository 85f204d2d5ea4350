prop("P04", "Page text cannot inject markup into the HTML output",
     "No text that comes from a page (or from the tokens of a page built in code) reaches the HTML output "
     "without being HTML-escaped first, and nothing after the escaping undoes it. Only constants, numbers, dates, "
     "URI references, trusted configuration and templates are written as they are.",
     ["inputs", "configurations"],
     "Every page text and every configuration: each value ever written into the HTML output.",
     "Tests compare the HTML of a few dozen pages whose text holds no markup; an unescaped field shows only for text "
     "with <, >, & or quotes in exactly that field.",
     [HTML, CONV, "vimwiki-core/src/lang/output/html/formatter.rs"],
     [("html writers of every element", HTML), ("page template substitution", CONV),
      ("formatter state (title, header ids)", "vimwiki-core/src/lang/output/html/formatter.rs")],
     technique="interprocedural backward taint analysis over MIR (every write into the formatter is a sink)",
     note="Every write into the HTML formatter and the result of the page conversions, over all paths; trusts the "
          "escape function, syntect and uriparse, and treats configuration, file paths and templates as trusted.")

prop("N01", "Writing a parsed page as vimwiki and parsing it again gives an equal page",
     "For every page, parsing the vimwiki text written for its parsed form yields an equal page.",
     ["inputs"], "All page texts.",
     "Tests write and re-read single elements, not arbitrary nestings of them.",
     [WIKI, PARSE], [("vimwiki writers", WIKI), ("parsers", PARSE)],
     na="Equality after a round trip is a relation between runtime strings and a backtracking parser; no sound static "
        "argument bounds it. Its structural parts are claimed separately (delimiters agree, every component is written, "
        "delimiters balance).")
prop("N02", "Parsing takes time and stack polynomial in the size of the page",
     "Parsing a page never takes exponential time or unbounded stack.",
     ["inputs"], "All page texts.",
     "Tests parse small pages.", [PARSE], [("nested re-parsing of inner content", PARSE)],
     na="Cost depends on how often the backtracking alternatives re-parse the same bytes, a runtime quantity; a static "
        "bound would need a grammar-wide potential argument this family does not reach.")
prop("N03", "Formatting a file in place never loses it on a crash",
     "Interrupting an in-place format at any point leaves either the old or the new content of the file.",
     ["crash_points"], "Every crash point of an in-place format.",
     "Tests do not crash.", [CLI + "/subcommand/format.rs"], [("fs::write of the formatted file", CLI + "/subcommand/format.rs")],
     na="The tool makes no such promise: it writes with a plain fs::write (truncate then write), so a rule requiring "
        "write-then-rename would assert a guarantee the system does not exist to provide, and crash states are runtime states.")

prop("P07", "Converting an element to borrowed or owned keeps all of it",
     "Converting any element, or a located part, between its borrowed and its owned form, and wrapping it into a wider "
     "element kind, returns an equal element: every component is kept, none is dropped, replaced, reordered or swapped "
     "with another, and each located part keeps its region.",
     ["inputs"],
     "Every value of every element type, at every nesting depth.",
     "Tests convert a handful of elements; a dropped or swapped component shows only for the variant and field concerned.",
     [ELEM], [("to_borrowed / into_owned of every element", ELEM), ("Located conversions", ELEM + "/utils.rs")],
     technique="path-sensitive symbolic evaluation of MIR to a term, checked to be an image of the receiver (coinductive identity check)",
     note="Every borrowing, owning and widening conversion of the element types, over all paths; trusts the documented "
          "behaviour of std iterator adaptors, Cow and collections.")

prop("P08", "Comparing elements sees every component; strict comparison sees regions",
     "Two elements are equal exactly when they are of the same kind and all their components are equal, regions "
     "disregarded; the strict comparison also compares every region. Equal elements hash alike.",
     ["inputs"],
     "Every pair of values of every element type.",
     "Tests compare a few pairs; a component left out of a comparison shows only for elements differing in just that one.",
     [ELEM], [("StrictEq impls", ELEM), ("PartialEq / Hash of Located", ELEM + "/utils.rs")],
     technique="path-sensitive evaluation of comparison and hash bodies to field coverage sets (MIR)",
     note="Every strict comparison, equality and hash of the element types, derived or hand-written.")

prop("P09", "Taking the children of an element loses none of them",
     "The children of an element are all of its located parts, each once, in the order of the document and with its own "
     "region; the lent slices of children are the same parts.",
     ["inputs"],
     "Every value of every element type with children.",
     "Tests take the children of one or two small elements per type.",
     [ELEM], [("IntoChildren / AsChildrenSlice impls", ELEM)],
     technique="path-sensitive evaluation of MIR to the returned sequence, compared with the located fields of the type",
     note="Every implementation of the children conversions; a loop is followed for zero and one rounds, adaptors of std are trusted.")

prop("P11", "Parsing leaves no text of a page behind",
     "All text of a page that parses becomes part of its elements, except for markup: delimiters, markers, enumerators, whitespace and line endings. "
     "What is set aside to be parsed on its own (the inside of a link or of decorated text, a cell, a title, a term, a description) is parsed "
     "to its end or isn't that element, and text that is no other element is kept as text. Only the segments of a link beyond those it can have, "
     "and all but the last of several attributes with one name, are ignored.",
     ["inputs"],
     "Every text that parses as a page.",
     "A test compares the elements of the few lines it has; text is lost where one parser stops short of what another one set aside for it.",
     [PARSE], [("combinators of the elements", PARSE), ("text fallback", "vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs"),
               ("parts of links", "vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs")],
     technique="use analysis of parser results and rests over symbolic terms of the parsers, with abstract values for how much a dropped text may tell and whether a parser is total",
     note="Every parser reachable from that of a page, on all of its paths; nom's combinators are trusted as documented.")

prop("P12", "The ids of headers and bold text are unique within a page",
     "Every id that the HTML of a page gives to a header or to bold text is one that no tag of the page was given before, however often a text is "
     "repeated and whatever other texts are; only a text that itself reads like the numbered id made for a repetition may get that id again (as the tests have it). "
     "The link a header holds to itself leads to an id that is written with it.",
     ["inputs", "histories"],
     "Every page, whatever its headers and bold texts are and in whatever order they come.",
     "Whether an id clashes depends on all the headers written before it: two equal headers and one that looks like the second's id are enough, and no test has them.",
     [HTML], [("making an id", "vimwiki-core/src/lang/output/html/formatter.rs"), ("headers and bold text", "vimwiki-core/src/lang/output/html/mod.rs")],
     technique="path-sensitive symbolic evaluation of the writers (stream of what is written, provenance of id values) and of the id maker (absent before, recorded after, on every return path), with an effect rule on the table of ids",
     note="Attributes that the page itself gives to code blocks and links, and templates, are not ids of the tool.")

prop("P14", "Configuration that is left out takes its default",
     "Reading a configuration never fails for a key or a section that is left out, and each one takes exactly the value it has in the "
     "Default of its section; reading an empty configuration gives the default configuration.",
     ["inputs"],
     "Every subset of the keys of every section of the HTML and vimwiki configuration.",
     "Whether a key is optional and what it defaults to is spread over an attribute on each of some sixty fields and a hand-written "
     "Default per section; no test reads a configuration with one key missing, and there are too many subsets to try.",
     ["vimwiki-core/src/lang/output/html/config.rs", "vimwiki-core/src/lang/output/vimwiki/config.rs"],
     [("sections and their defaults", "vimwiki-core/src/lang/output/html/config.rs")],
     technique="symbolic evaluation of the derived visitor's fallback for each field and of the section's Default to terms, compared per field",
     note="All fields of all sections that implement Deserialize, for keyed and positional input. The parser of the file format is trusted.")

prop("P24", "What serialization writes, deserialization reads back",
     "Serializing any page, element nested in a page, or configuration succeeds, and writes each field once and each variant with its content, "
     "under a name that deserialization gives back to the same field or variant. The run-time state of the HTML configuration is the "
     "one part that is not written.",
     ["inputs"],
     "Every page and element that can be built, and every configuration.",
     "No test serializes a page at all; one attribute that differs between the two directions, or one part that is written as a sequence "
     "where a map is needed, breaks only pages that contain it.",
     [ELEM, "vimwiki-core/src/lang/output/html/config.rs", "vimwiki-cli/src/ast.rs"],
     [("serde attributes of the elements", ELEM), ("Located, flattened", "vimwiki-core/src/lang/elements/utils/mod.rs")],
     technique="path-wise symbolic evaluation of the derived Serialize and Deserialize MIR; names, fields, tags and flattened forms compared for every type",
     note="All types of the workspace that implement both; that serde's derived visitor builds the struct from the fields it selected is trusted.")

prop("P29", "The HTML written for any element is well-formed",
     "Whatever the page and the configuration, the HTML written for an element is balanced: each tag opened is closed by "
     "its own closing tag in the right order on every path that succeeds, table rows, cells and definition entries sit in "
     "their parents, attribute values are quoted, and nested elements are only written in element content.",
     ["inputs", "configurations"],
     "Every element, every combination of options and every shape of content (empty, one, many).",
     "Tests compare the HTML of small samples; a tag left open on one combination of options or contents shows in none of them.",
     [HTML], [("html writers of every element", HTML), ("default template", "vimwiki-core/src/lang/output/html/config.rs")],
     technique="property simulation (ESP-style typestate of the markup automaton over MIR, path-correlated, to a fixpoint)",
     note="Every HTML writer over all paths and any number of loop rounds; assumes values are escaped (P04) and syntect's "
          "output is balanced.")

prop("P06", "The writers leave nothing of an element out",
     "Writing any element as HTML or as vimwiki text writes each of its components that the format has a place for: on "
     "every path that succeeds every field is written or handed to the writer of its type, and every item of a collection "
     "is, from the first to the last. Only components that are absent or empty are left out.",
     ["inputs", "configurations"],
     "Every element, with every combination of present and absent components, and every configuration.",
     "Tests write elements with a usual set of components; one left out on some path shows only for elements with it there.",
     [HTML, WIKI], [("html writers of every element", HTML), ("vimwiki writers of every element", WIKI)],
     technique="property simulation (ESP) over MIR with the set of unwritten components as state",
     note="Every writer of both formats, all paths, any number of loop rounds; components a format has no place for are "
          "listed in the check with the reason.")

prop("P05", "Parsing, writing and comparing are deterministic",
     "What is parsed, the HTML and vimwiki output, the children of elements, comparisons and hashes depend only on the "
     "page and the configuration: the arbitrary order of a hash table never decides an output, a choice or the order of "
     "a result, and no clock, random source, environment variable or global state is consulted. The one exception is "
     "the current date, which stands in for the date of a page that has none.",
     ["inputs", "schedules"],
     "Every page and configuration, and every iteration order a hash table can take.",
     "A test sees one or a few of the orders a hash table can take; with one or two entries it nearly always sees the right one.",
     [HTML, WIKI, ELEM, "vimwiki-core/src/lang/output/html/formatter.rs"],
     [("iterations over hash tables", ELEM), ("attributes and metadata in HTML", HTML), ("link properties", WIKI)],
     technique="interprocedural forward taint analysis over MIR (iteration order of hash tables) and call-graph effect analysis (clock, random, global state)",
     note="Every iteration over a hash table in the library and tool, followed to where its order ends; every function "
          "reachable from parsers, writers and comparisons. Trusts the order std documents for its adaptors.")

MACROS = "vimwiki_macros/src"
prop("P10", "A vimwiki macro expands to exactly the element its text parses to",
     "The code that a vimwiki macro expands to builds the very element that parsing the text of the macro gives: the same "
     "kind, every component, every item in order, every region. Each macro uses the parser of the kind it is named after, "
     "and the raw and format variants differ from the plain one only in keeping indentation and in substituting placeholders.",
     ["inputs"],
     "Every text of every macro, thus every value of every element type.",
     "Tests expand a few macros per element; a component swapped or dropped in the expansion shows only for the variant concerned.",
     [MACROS + "/tokens/elements", MACROS + "/tokens/utils.rs", MACROS + "/tokens/primitives.rs", MACROS + "/lib.rs"],
     [("tokenizers of every element", MACROS + "/tokens/elements"), ("expansion of the macros", MACROS + "/lib.rs")],
     technique="path-sensitive symbolic evaluation of MIR to the token stream produced, read back as the expression it denotes and checked to denote the receiver",
     note="Every tokenizer over all its paths and all 100 macros; trusts quote/syn to append the tokens their names say, and "
          "the substitution of placeholders (Formatter) is out of scope.")

WASM = "vimwiki-wasm/src/elements.rs"
prop("P20", "Kind tests, casts, getters and lookups tell the truth about an element",
     "For every element, and for its JavaScript wrapper: is_x is true exactly when the element is of kind x; into_x, as_x and "
     "get_x give that part, unchanged and with its region, exactly then; a method named after a component returns that "
     "component; x_at(i) and x_cnt give the i-th item and the number of items; remote is the contrary of local. The enum counterparts convert kind by kind, "
     "and constructors of wrappers keep the text and region they are given.",
     ["inputs"],
     "Every element of every kind.",
     "Tests ask a few elements for the kind they are; a cast that loses the region or a test that answers for a second kind shows "
     "only on exactly the other kinds, and the JavaScript wrappers have no tests at all.",
     [ELEM, WASM],
     [("wrappers for JavaScript", WASM), ("kind tests and casts of elements", ELEM),
      ("Located", "vimwiki-core/src/lang/elements/utils/mod.rs")],
     technique="path-sensitive symbolic evaluation of each accessor's MIR to the value returned per established variant, compared with the part its name denotes",
     note="Every public accessor recognised by its name and signature, over all its paths; glue generated by wasm_bindgen is trusted. "
          "Accessors that compute (rows of a table, progress of a task) are out of scope.")

prop("P31", "Every configuration option governs what it is named after",
     "Each option of the HTML and vimwiki configuration is used where the elements its section is named after are written, and by the writers of no "
     "other elements. A yes/no option takes effect in the direction its name says (trim, padding, separation, inclusion, indentation), "
     "and an option for one kind of status is written for that status only.",
     ["inputs"],
     "Every option, every value of it, every page.",
     "The tests set a few options on a few elements; an option that is read from the section next to it, is negated, or is not read at all "
     "behaves correctly for the default configuration that nearly all tests use.",
     ["vimwiki-core/src/lang/output/vimwiki/mod.rs", HTML, "vimwiki-core/src/lang/output/html/convert.rs"],
     [("writers", "vimwiki-core/src/lang/output/vimwiki/mod.rs"), ("options", "vimwiki-core/src/lang/output/html/config.rs")],
     technique="forward value-flow of each option read to what it decides, with the call graph giving the writer served and edge dominance the code each value governs",
     note="Direction is judged by what runs only under one value of the option; 8 options without any effect are known findings.")


prop("P15", "A failure to read, parse, convert or write is never passed over",
     "Whatever fails while wiki files are loaded, converted, formatted or inspected fails the command, which then exits with a code other than zero, and a "
     "failure while an element is written fails writing the page. Only what concerns the cache, asking vim for its wikis and entries that cannot be "
     "read while a directory is walked is recovered from, and that is logged.",
     ["inputs", "fault_sequences"],
     "Every call that may fail, whichever of its failures occurs, in every subcommand and both writers.",
     "The tests run nearly no operation that fails, and an error that is dropped leaves every passing case as it is.",
     [CLI + "/lib.rs", CLI + "/ast.rs", CLI + "/subcommand/convert.rs", CLI + "/subcommand/format.rs", CLI + "/subcommand/inspect.rs", HTML, WIKI],
     [("run", CLI + "/lib.rs"), ("ExitCodes", CLI + "/lib.rs"), ("load_wiki_file", CLI + "/ast.rs")],
     technique="typed dataflow over MIR: every Result is consumed by an operation that keeps the failure, and the failure arm of every branch reaches only failing returns",
     note="Library functions are trusted to report their failures; recovery is allowed by the path an operation is on (the cache's), through callers.")

prop("P16", "The command line touches only the files it was asked to",
     "The cache is read, written or made only without --no-cache, and what is in it is removed only without --no-prune-cache too; no other file is ever removed. "
     "Files are written only without --stdout (converted pages, and the stylesheet only with --include-vimwiki-css), with --inline (the formatted file itself, from its own text) or to --output. "
     "Whatever is converted or formatted is written or printed whenever the command succeeds, existing output replaced.",
     ["inputs", "configurations", "fault_sequences"],
     "Every combination of options, every way through the command and every file found.",
     "The tests run a handful of option combinations and look at the files they expect, not at those that should have been left alone.",
     [CLI + "/lib.rs", CLI + "/ast.rs", CLI + "/subcommand/convert.rs", CLI + "/subcommand/format.rs", CLI + "/subcommand/inspect.rs"],
     [("process_file", CLI + "/subcommand/convert.rs"), ("load_wiki_file", CLI + "/ast.rs"), ("load_ast", CLI + "/ast.rs"), ("process_file", CLI + "/subcommand/format.rs")],
     technique="interprocedural, path-sensitive effect analysis over MIR: file operations with symbolic operands under the option conditions of their path",
     note="Library functions touch only the files named by their operands.")
prop("P17", "A cached page is used only for the text it was parsed from",
     "An entry of the cache is named by a digest of one file's whole text and holds the page parsed from that text, so a file's data is either that parse or the entry of that name, "
     "and any change to the text, however small, leads to another name. Pruning, which comes after all files are loaded, removes an entry only if no loaded file has its name as checksum.",
     ["inputs", "histories", "fault_sequences"],
     "Every file text, every history of runs over the same cache, and every content the cache may hold.",
     "The tests start with an empty cache and unchanged files; a key that leaves out part of the text answers them all correctly.",
     [CLI + "/ast.rs"],
     [("load_wiki_file", CLI + "/ast.rs"), ("load_ast", CLI + "/ast.rs"), ("WikiFile", CLI + "/ast.rs")],
     technique="interprocedural symbolic dataflow over MIR: terms of cache paths, of what is written there and of the fields of loaded files",
     note="The digest does not collide; what is serialized reads back as it was (P24).")
prop("P18", "A page is converted as itself, in its wiki, to its own output",
     "Every file is converted with its own path as the active page and the wiki its path lies deepest in as the active wiki, and what is written is the page found or loaded at that very path, "
     "to the output path that wiki gives that path: its path within the wiki, below the wiki's path_html. Looked up by index, name or path, a wiki is the one at that index, of exactly that name, "
     "or the one with the longest path the given path starts with.",
     ["inputs", "configurations"],
     "Every set of wikis (nested, overlapping, unnamed), every file and every order they are processed in.",
     "The tests have one or two disjoint wikis and convert one file at a time, so a page of another file, or an outer wiki, looks right.",
     [CLI + "/subcommand/convert.rs", CLI + "/ast.rs", HTML + "/config.rs"],
     [("process_path", CLI + "/subcommand/convert.rs"), ("process_file", CLI + "/subcommand/convert.rs"), ("find_file_by_path", CLI + "/ast.rs"), ("find_wiki_index_by_path", HTML + "/config.rs"),
      ("make_output_path", HTML + "/config.rs")],
     technique="interprocedural symbolic dataflow over MIR: the path terms of page, runtime configuration and output agree at every conversion",
     note="Paths are compared by the component-wise operations of std::path.")
prop("P22", "A link leads from the output of its page to the output of its target",
     "A link to a page, resolved in any page at any depth, is the relative reference from that page's output to the output of the page it names: below the root of its wiki if absolute, beside the linking page if not, "
     "index within a directory, below the wiki of its index or name (an error if there is none), or the diary's page of its date; a transclusion of a local file is the same with the file's own extension. "
     "The link's anchor becomes the fragment of that reference, and a raw link, a link to another system and an anchor alone are written exactly as they are.",
     ["inputs", "configurations"],
     "Every link of every kind, every page and directory it stands in, and every set of wikis.",
     "The tests resolve about a dozen links from one page; each kind multiplies with directories, absolute paths, anchors, depth and missing wikis.",
     [HTML + "/utils.rs", HTML + "/config.rs", ELEM + "/blocks/inline/links/data.rs"],
     [("resolve_link", HTML + "/utils.rs"), ("make_relative_link", HTML + "/utils.rs"), ("make_path_relative", HTML + "/utils.rs"), ("to_path_buf", ELEM + "/blocks/inline/links/data.rs"),
      ("is_local_anchor", ELEM + "/blocks/inline/links/data.rs"), ("to_anchor", ELEM + "/blocks/inline/links/data.rs")],
     technique="path-sensitive symbolic dataflow over MIR: the term of the result on each path against what the kind of the link calls for",
     note="An extension in a wiki link gives way to html; std::path, relative_path and uriparse do as documented.")
prop("P19", "Wikis keep their index and only what was asked for is processed",
     "The wikis are vim's, then the configuration file's, then one for each extra path, none taken out or moved; a loaded wiki's index, name and path are those of its place in that whole list, whatever is included. "
     "A wiki is loaded or converted exactly where --include is empty or has its own index or name, and a file found in a directory is read only if its extension is the wiki's, or one of --extensions when formatting.",
     ["inputs", "configurations"],
     "Every list of wikis, every --include and --extensions, and every content of the directories.",
     "The tests include nothing or everything; an index counted over the included wikis only shows with a partial --include.",
     [CLI + "/ast.rs", CLI + "/utils.rs", CLI + "/opt.rs", CLI + "/subcommand/convert.rs", CLI + "/subcommand/format.rs"],
     [("load_ast", CLI + "/ast.rs"), ("load_html_config", CLI + "/utils.rs"), ("filter_by_wiki_idx_and_name", CLI + "/opt.rs"), ("format", CLI + "/subcommand/format.rs")],
     technique="interprocedural, path-sensitive symbolic dataflow over MIR: operations on the wiki list, and the conditions files are read under",
     note="Options are parsed as declared.")

prop("P01", "Parsing, writing and converting never panic",
     "Parsing any text, and writing, converting or inspecting any page in the library and the command line tool, never panics: "
     "no index or slice lies outside of what it is taken from or cuts a character in two, nothing that is missing is unwrapped, "
     "and no subtraction goes below zero.",
     ["inputs", "configurations"],
     "Every text, every page parsed from it or built in code, and every configuration.",
     "Tests parse well-formed samples; a slice one past the end shows only for a text that ends in the middle of a delimiter.",
     [PARSE, HTML, WIKI, CLI + "/subcommand/convert.rs"],
     [("take_line_until and others", "vimwiki-core/src/lang/parsers/utils/bytes.rs"), ("Span", "vimwiki-core/src/lang/parsers/span.rs"),
      ("write_link", HTML), ("tables", WIKI)],
     technique="abstract interpretation of MIR (differences between integers, variants, character boundaries), entered from every function",
     note="Parsers leave, and take spans from, a part of what they are given; the 31 sites beyond the analysis are listed with a reason each "
          "in sa/checks/p01.py; third-party functions and stack depth are trusted.")

"""The properties: what is claimed, how it is decided, by which functions."""
import p_quote, p_scan, p_escape, p_scalar, p_decode, p_pipe, p_emit, p_lines, p_api, p_indent, p_linescan, p_nest, p_ser, p_de, p_expand, p_fold

ABSINT = ('abstract interpretation of the compiled program (rustc MIR) over a regular-language domain: every input '
          'string at once, no execution, no solver')
FLOW = 'value-flow and control-flow rules over the type-checked program (rustc MIR) of every feature configuration'
SYM = ('path-sensitive symbolic value-flow analysis of the compiled program (rustc MIR): terms and branch facts, loops on a '
       'generic element, no execution, no solver')
ALL = 'inputs'

PROPS = {}


def prop(pid, title, statement, text, why, files, mech, checks, floor, how, technique=ABSINT, over=('inputs',), note=''):
    PROPS[pid] = dict(id=pid, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                      mech=mech, checks=checks, floor=floor, how=how, technique=technique, note=note)


ENC = 'crates/toon/src/encode/'
DEC = 'crates/toon/src/decode/'

prop('E01', 'Strings are left unquoted only when they read back as themselves',
     'For every string and every delimiter, the encoder writes the string without quotes only if the text means '
     'exactly that string to a decoder: it is not empty, not a literal, not number-like, has no leading or trailing '
     'blank, and holds no active delimiter, colon, quote, backslash, bracket, brace, control character, and does not '
     'start with a hyphen. The decoder reads every string left unquoted back as that same string. Ordinary words '
     'stay unquoted.',
     'all strings, three delimiters, std and alloc builds',
     'Tests sample a few strings; a single misjudged string silently turns into a number, a literal or a structural '
     'line.', [ENC + 'primitives.rs', 'crates/toon/src/number.rs', DEC + 'parser.rs'],
     [('quoting decision', ENC + 'primitives.rs needs_quotes'), ('scalar classification', DEC + 'parser.rs parse_scalar_token_at_line')],
     [p_quote.bare_values], 9,
     'needs_quotes is interpreted abstractly over all strings (regular-language domain); its false-language must not '
     'meet the must-quote language of TOON 7.2, and composed with the scalar decoder must be the identity.')

prop('E02', 'Keys are left unquoted only when they match the bare-key grammar',
     'For every key, the encoder writes it without quotes only if it matches [A-Za-z_][A-Za-z0-9_.]*; every other key '
     'is written as a string literal. Identifier keys stay unquoted. Path segments are folded only if they are '
     'identifiers.',
     'all keys, std and alloc builds',
     'Tests try a handful of keys; an unquoted key with a bracket, colon or leading digit changes the structure of '
     'the document.', [ENC + 'primitives.rs', ENC + 'encoders.rs'],
     [('key quoting decision', ENC + 'primitives.rs key_needs_quotes'), ('foldable segments', ENC + 'encoders.rs key_needs_quotes')],
     [p_quote.bare_keys], 3,
     'both key predicates are interpreted abstractly over all strings and compared with the bare-key and identifier '
     'languages.')

prop('E03', 'Every string literal written reads back as the string',
     'For every string, the literal written for it is an opening quote, then for each character in order either the '
     'character itself or an escape sequence that stands for exactly that character, then a closing quote; quotes, '
     'backslashes and line breaks never appear unescaped.',
     'all strings, std and alloc builds',
     'Tests cover a few escapes; one wrong or missing escape corrupts data or breaks the line structure.',
     [ENC + 'primitives.rs'], [('escaping', ENC + 'primitives.rs escape_and_quote')],
     [p_escape.encode_literals], 1,
     'escape_and_quote is interpreted abstractly over all strings with a ghost cursor: every append must spell the '
     'character at the cursor and advance it.')

prop('D10', 'Every decoded value reaches the target type as what it is',
     'The serde deserializer hands null, booleans, integers, floats, strings, arrays and objects to the visitor as unit, that boolean, that '
     'i64, u64 or f64 unchanged, that string, a sequence and a map, whatever type is asked for. A sequence offers each element and a map each '
     'key with its own value, once and in document order, and they end only when nothing is left. For an Option null and nothing else is '
     'None, a newtype struct takes the value itself, an enum takes a string or an object of exactly one entry and nothing else, and no '
     'other value is refused by the deserializer itself.',
     'all values and target types (default, alloc and all-features builds; with de_direct this deserializer serves serde_json::Value only)',
     'The mapping has thirty methods and hand-written cursors; an element skipped or handed over twice shows only for some documents and types.',
     ['crates/toon/src/de/mod.rs'],
     [('visitor', 'crates/toon/src/de/mod.rs deserialize_any, deserialize_option, deserialize_newtype_struct, deserialize_enum'),
      ('cursors', 'crates/toon/src/de/mod.rs SeqAccess and MapAccess of deserialize_any')],
     [p_de.visitors], 31,
     'every path through every method of the deserializer is followed symbolically with the visitor and the seeds as opaque steps: the facts of '
     'the path say which kind of value it is for, and the visitor method called and its argument must be those of that kind; the cursors are run '
     'from an arbitrary position, next_key and next_value one after the other, and the element handed over and the new position compared.',
     technique=SYM)

prop('E05', 'Array headers and what follows them agree',
     'For every array encoded, at every position (root, field, list item, row table): the header declares the number of '
     'elements and the active delimiter, and exactly that many rows, values or list items follow, one per element and in '
     'order, separated by that delimiter. The tabular form is used only for non-empty arrays of non-empty objects with '
     'the same keys and primitive values, with the keys of the first as fields and one cell per field, in the order of '
     'the header; inline only for non-empty arrays of primitives. Every primitive in a row, an inline list or a list '
     'item is written by the formatter of its type.',
     'all values, three delimiters, key folding on and off, default, alloc and all-features builds',
     'The encoder has nine copies of the array code; tests sample a few shapes of each, and a miscounted header or a '
     'cell under the wrong column corrupts data that still decodes.',
     [ENC + 'encoders.rs', 'crates/toon/src/ser/stream.rs', ENC + 'primitives.rs'],
     [('arrays of values', ENC + 'encoders.rs encode_array'), ('arrays under a key', ENC + 'encoders.rs encode_keyed_array'),
      ('streaming serializer', 'crates/toon/src/ser/stream.rs SeqSer'), ('table test', ENC + 'encoders.rs is_tabular_array')],
     [p_emit.headers], 24,
     'every function that writes lines is followed symbolically on a generic value; the text it writes is matched with '
     'the grammar of the format (header, rows, cells, inline values, list items) for that value; the tests that choose '
     'the form are analysed for what they establish about every element.', technique=SYM, over=('inputs', 'configurations'),
     note='formatters and key quoting are the subject of E01 to E03; recursion is cut at the writing functions, each of '
          'which is checked against the contract its callers assume')

prop('E06', 'Every field and item is written once, in order, at its depth',
     'For every value encoded: each entry of an object or map produces, in order and exactly once, its formatted key with '
     'a colon and its own value (in the same line for primitives, one level deeper for objects and lists), or, with '
     'key folding, its folded key and the value folded to; each list item starts with a hyphen one level below its header; '
     'an empty object item is a lone hyphen. The indentation of a line is its depth times the configured indent, in '
     'spaces.',
     'all values, three delimiters, key folding on and off, default, alloc and all-features builds',
     'Nesting is unbounded and each of two dozen functions handles every combination of parent and child; tests use two or '
     'three levels.',
     [ENC + 'encoders.rs', 'crates/toon/src/ser/stream.rs', ENC + 'writer.rs'],
     [('objects', ENC + 'encoders.rs encode_value'), ('list items', ENC + 'encoders.rs encode_list_item_object'),
      ('streaming serializer', 'crates/toon/src/ser/stream.rs MapSer'), ('indentation', ENC + 'writer.rs write_indent')],
     [p_emit.fields], 24,
     'every function that writes lines is followed symbolically on a generic value; lines, calls of other writing '
     'functions and loops are matched with the grammar of the format, with keys, values and indentation as terms.',
     technique=SYM, over=('inputs', 'configurations'),
     note='recursion is cut at the writing functions, each of which is checked against the contract its callers assume; '
          'whether a folded key may be used is not decided here')

prop('E11', 'Key folding joins exactly the chains of single-key objects',
     'Where key_folding is Safe, a field whose value is an object is written under a joined key exactly when that object has one entry, its '
     'own key and that of the entry are identifiers, flatten_depth allows two keys, and no field of the same object, written or yet to be '
     'written, has the joined key. The joined key is the keys joined by single dots, going on as long as the value reached is an object of one '
     'entry whose key is an identifier and flatten_depth allows one more, and the value written under it is the one reached. Where '
     'key_folding is Off, no key is joined.',
     'all values, keys and depth limits; json builds (without json there is no folding)',
     'Chains can be of any length, with the odd key, the wide object, the limit or the collision anywhere; tests have chains of three.',
     [ENC + 'encoders.rs', 'crates/toon/src/ser/stream.rs'],
     [('joining', ENC + 'encoders.rs try_fold_keys'), ('use', ENC + 'encoders.rs encode_object_field_with_context'),
      ('siblings', ENC + 'encoders.rs encode_object_field_with_siblings')],
     [p_fold.keys], 5,
     'the function that joins keys is followed symbolically with one symbol for the value reached so far: each key joined must be known to be an '
     'identifier and the only key of its object, and where the function returns, the facts of the path must say that the chain ends there or '
     'that there is none. The functions that write a joined key are followed with it as an opaque step: folding must be known to be on and '
     'the joined key known not to be among the siblings, which each caller must hand over completely.', technique=SYM, over=('inputs', 'configurations'),
     note='what an identifier is, is decided in E02; that the joined key goes with its value, in E06')

prop('D01', 'Structural characters inside string literals never split text',
     'For every line of text and every delimiter, the colon, bracket and delimiter the decoder acts on are the first '
     'ones outside string literals (escaped quotes included), and a row or inline list is split into exactly the '
     'trimmed segments between the active delimiters outside literals, all of them and in order. The same holds in '
     'every feature configuration.',
     'all lines, three delimiters, default and perf_* builds',
     'Tests use short well-formed lines; quotes, escapes and delimiters can be combined without bound, and the '
     'perf_* code paths are not covered at all by the default test run.',
     [DEC + 'parser.rs', DEC + 'scanner.rs'],
     [('colon finder', DEC + 'scanner.rs find_unquoted_colon'), ('bracket finder', DEC + 'parser.rs find_unquoted_bracket'),
      ('cell splitter', DEC + 'parser.rs split_delim_aware')],
     [p_scan.opacity], 5,
     'each finder and splitter is interpreted abstractly over all words annotated with their quote phase; results '
     'must satisfy the relation written in the specification.', over=('inputs', 'configurations'))

prop('D03', 'String literals are read exactly, malformed ones rejected',
     'For every token that starts with a quote, the decoder accepts it only if it is a quote, plain characters and '
     'valid escape sequences, and a closing quote at the very end; the result holds, in order, exactly the '
     'characters and decoded escapes, none dropped or added. Every literal made of plain characters and the simple '
     'escapes is accepted.',
     'all tokens, std and alloc builds',
     'Tests cover a few escapes and a few malformed literals out of an unbounded set.',
     [DEC + 'parser.rs'], [('unescaping', DEC + 'parser.rs try_unescape_json_string')],
     [p_escape.decode_literals], 1,
     'try_unescape_json_string is interpreted abstractly over all strings with a ghost cursor in the literal: every '
     'append must be the character or escape at the cursor; the value of \\u escapes is not tracked, their form is.')

prop('D02', 'Scalar tokens are classified by the TOON rules, integers exactly',
     'For every trimmed token: true, false and null are the literals; a token of the JSON number grammar without a '
     'forbidden leading zero is a number, and an integer that fits 64 bits is that exact integer; a token that starts '
     'with a quote is a string literal; every token that is not number-like is the string of its own text. Any other '
     'number is the float its token is read as, or the u64 or i64 equal to that float: a float with a fraction or out of '
     'range never becomes an integer. Key tokens are unescaped if they start with a quote and are taken as they stand otherwise.',
     'all tokens, default, alloc and all-features builds',
     'The token space is unbounded; tests pin a few numbers, so a changed order of the tests or a lossy float detour '
     'goes unnoticed.', [DEC + 'parser.rs', 'crates/toon/src/number.rs'],
     [('scalar classification', DEC + 'parser.rs parse_scalar_token_at_line'), ('key tokens', DEC + 'parser.rs parse_key_token_at_line')],
     [p_scalar.scalars, p_scalar.keys], 3,
     'the token parser is interpreted abstractly over all strings; every outcome (literal, number with the reading '
     'that produced it, string with the text it holds) is compared with the language of tokens that must have it. '
     'What comparisons, remainders and conversions tell about a float is kept on each path, and where the path turns '
     'it into an integer they must say that it is whole and within the range of the type.',
     over=('inputs', 'configurations'))

prop('D04', 'Every line is scanned once, with its indentation and its parts',
     'The scanner makes exactly one entry for every line of the document, in order: its indentation is the number of its leading spaces; '
     'the text behind them is a list item if it is "-" or starts with "- " (the rest is kept), a table header if it starts with "@", a field if '
     'there is a colon outside string literals (split at the first one into the key and the value, which may be empty), a scalar otherwise. '
     'The pieces kept hold everything but spaces and tabs around them and the colon or hyphen itself.',
     'all texts; default, alloc and all-features builds',
     'The scanner reads every byte of a document before anything else; tests show it short, tidy lines.',
     [DEC + 'scanner.rs'], [('scanner', DEC + 'scanner.rs scan')], [p_linescan.scanner], 0,
     'the scanner is interpreted abstractly over all texts annotated with their quote phases (which start afresh on every line); at every '
     'entry pushed, the positions of its parts must satisfy the relation written in the specification, and when the scanner returns the last '
     'line must have its entry.', over=('inputs', 'configurations'))

prop('D05', 'Blocks are told apart by indentation',
     'When the decoder reads the fields of an object, the items of a list or the rows of a table, it takes only lines of one indentation, that '
     'of the block. What it reads under a line (a nested value, rows or items under a header, further fields of a list item) starts at a '
     'greater indentation than the line has; further fields of a list item are looked for at a smaller indentation than the value under its '
     'first field. Rows and items under a header are read at the indentation of the next line that is not blank if that is deeper than the '
     'header, whatever the step.',
     'all documents, strict or not, default, alloc and all-features builds',
     'Which block a line belongs to depends on the indentation of all lines around it; tests use a few regular layouts.',
     [DEC + 'parser.rs'], [('objects', DEC + 'parser.rs parse_object'), ('lists', DEC + 'parser.rs parse_array'),
                           ('nested values', DEC + 'parser.rs parse_node'), ('tables', DEC + 'parser.rs parse_tabular_rows'),
                           ('indentation of the lines below', DEC + 'parser.rs child_indent')],
     [p_nest.nesting, p_nest.child], 10,
     'each parser function that reads lines is followed symbolically with one symbol for the current line. Where a line is consumed, the '
     'facts of the path must say that its indentation equals that of the block; where another such function is called, the indentation '
     'passed must be provably deeper than that of the line consumed last. Which parameter holds which indentation is found in a first round.',
     technique=SYM, over=('inputs', 'configurations'))

prop('D06', 'Declared array lengths, row widths and delimiters are enforced in strict mode',
     'In strict mode, whatever the document: every value decoded under an array header is an array whose length is '
     'the declared one, or the decoder returns an error; every table row has exactly one cell per header field, or '
     'the decoder returns an error, and the value of field k comes from cell k; rows and inline values are split at '
     'the delimiter the header declares, not at another one; a line that is an array header is never taken for a '
     'plain field. This holds wherever the array stands: at the root, as a field, in a list item, as a row table, '
     'inline or empty.',
     'all documents, all positions of an array, default, alloc and all-features builds',
     'Length and width checks are repeated at a dozen places of the parser; tests reach some of them with one or two '
     'documents each, and a missing check silently truncates or extends data.',
     [DEC + 'parser.rs'],
     [('arrays in lists', DEC + 'parser.rs parse_array'), ('arrays in objects', DEC + 'parser.rs parse_object'),
      ('root arrays', DEC + 'parser.rs parse_node'), ('arrays under a header', DEC + 'parser.rs parse_keyed_array_value')],
     [p_decode.array_lengths], 8,
     'every path of the parser functions is followed symbolically with the current header, its cells and the current '
     'line as symbols; where a value is delivered, the facts on the path must contain the length and width '
     'comparison, or an error must be pending.', technique=SYM, over=('inputs', 'configurations'),
     note='strict mode is assumed; the functions that look for a header and split cells are trusted here (D01)')

prop('D07', 'Strict mode rejects tabs and partial steps in indentation',
     'With options.strict, decoding a document succeeds only if every line that is not blank, whatever its kind and position, is indented by a '
     'multiple of options.indent spaces (of 2 if that is 0) and has no tab among its leading blanks. The validator reports an error for no '
     'other reason. It runs before the document is parsed, on the lines of the input, in every build.',
     'all documents and indentation steps, strict mode; default, alloc and all-features builds',
     'Tests have one wrong line in a short document; the rule is about each line of any document.',
     [DEC + 'validation.rs', 'crates/toon/src/de/mod.rs'],
     [('validator', DEC + 'validation.rs validate_indentation_with_size'),
      ('decoding', 'crates/toon/src/de/mod.rs from_str_via_internal_value')],
     [p_indent.validation, p_api.validated], 5,
     'the validator is followed symbolically with one generic line and one generic character: where the loop goes on to the next line, the '
     'facts of the path must say that the line is blank, or that its indentation is a multiple of the step and that the characters before '
     'the first other one were compared with the tab; where a tab or a remainder is known, only an error may be returned. The decoding '
     'functions are followed with the validator as an opaque step.', technique=SYM, over=('inputs', 'configurations'))

prop('D08', 'Errors always reach the caller',
     'No fallible step is ever ignored: when a call inside the library, the CLI or the WASM binding returns an error, '
     'the function that made the call returns an error too (or records a syntax error in the parser), unless it tries '
     'the same value again by another step; it never succeeds with a partial or default result, and never panics '
     'instead. A syntax error recorded by the parser is never cleared, and the decoding functions that return a '
     'Result succeed only if none was recorded, and then with the value that was parsed.',
     'all inputs and failures, default, alloc and all-features builds, CLI and WASM binding',
     'Tests see a handful of failures; failures of writers, readers and user Serialize implementations, and errors '
     'deep inside nested values, are hardly ever exercised.',
     [DEC + 'parser.rs', 'crates/toon/src/de/mod.rs', 'crates/toon/src/ser/stream.rs', ENC + 'encoders.rs',
      'crates/toon/src/lib.rs', 'crates/toon-cli/src/main.rs', 'crates/toon-wasm/src/lib.rs'],
     [('decoding entry points', DEC + 'parser.rs parse_to_internal_value_with_options'),
      ('serializer', 'crates/toon/src/ser/stream.rs SerializeMap::serialize_value'),
      ('reader and writer API', 'crates/toon/src/lib.rs')],
     [p_pipe.swallowed, p_pipe.document_errors, p_decode.error_writes], 180,
     'every function that makes a call returning a Result is followed symbolically with both outcomes of the call; on '
     'a path where it failed, the function must return an error. Lint: Parser.error is only ever set.',
     technique=SYM, over=('inputs', 'fault_sequences', 'configurations'),
     note='results whose error only says that a number or character does not parse are exempt, as are discarded writes '
          'into strings; parse_to_value and parse_to_internal_value, which return no Result, are lenient by design')

prop('D09', 'No line of the document is dropped',
     'The decoder never drops a line: when it accepts a document, every line that is not blank has put its key, value, table row '
     'or list item into the result or opened the container that holds the lines under it; no loop or branch of the parser steps '
     'over a non-blank line without adding its content. When lines are left after the value at the root, the decoder returns an error.',
     'all documents, strict or not, default, alloc and all-features builds',
     'Which lines are passed over or left over depends on indentation, nesting and the kind of every line; tests try a few.',
     [DEC + 'parser.rs'], [('document parser', DEC + 'parser.rs parse_document'), ('objects', DEC + 'parser.rs parse_object'),
                           ('arrays', DEC + 'parser.rs parse_array'), ('tables', DEC + 'parser.rs parse_tabular_rows')],
     [p_decode.leftover, p_lines.skipped], 12,
     'each parser function that returns a value is followed symbolically with one symbol for the current line: between two moves of '
     'the line index something made from the line is pushed into the value, or the line is known to be blank, or an error is '
     'pending; at each return of the document parser the facts of the path must say that no line is left or an error is pending.',
     technique=SYM, over=('inputs', 'configurations'))

prop('D12', 'Path expansion splits dotted identifier keys and merges without loss',
     'With expand_paths a key is split at its dots exactly when it was written without quotes and is two or more identifiers '
     '([A-Za-z_][A-Za-z0-9_]*) joined by dots, and its value is put under that path of nested objects; every other key is kept as it is, and every '
     'entry and element at every depth, in arrays too, is in the result, in order. Where keys meet, two objects are merged entry by entry in the same way; '
     'any other meeting is an error in strict mode, and otherwise the later value replaces the earlier.',
     'all documents decoded with expand_paths = safe, strict or not, in the default, alloc and all-features builds',
     'Which keys meet depends on the whole document: collisions below the first level, inside arrays, between quoted and split keys. Tests try a few.',
     [DEC + 'path_expand.rs', DEC + 'parser.rs'],
     [('which keys', DEC + 'path_expand.rs should_expand_key'), ('merging', DEC + 'path_expand.rs deep_merge'),
      ('walking', DEC + 'path_expand.rs expand_paths'), ('nesting', DEC + 'path_expand.rs build_nested_from_segments'),
      ('quoted keys', DEC + 'parser.rs parse_key_token_at_line')],
     [p_expand.expansion], 6,
     'the test for keys is decided exactly over the regular-language domain; the recursive functions are followed symbolically, each with the others '
     'as opaque steps (so each is decided for every depth): on every path the facts say whether a key was there, which kinds the values have and '
     'whether strict mode is on, and what was added, merged, replaced or refused must be what the statement says for them.',
     technique=SYM, over=('inputs', 'configurations'))

prop('E07', 'Every serde value is encoded as its counterpart in the data model',
     'Whatever type is serialized, at the root and below it: booleans and integers of every width keep their value, floats are null if and '
     'only if they are not finite, chars and strings keep their text, unit and None are null, Some and newtype structs are their inner '
     'value, a unit variant is its name and a newtype variant the object {name: value}. Sequences, tuples, maps and structs get one element '
     'or entry for each one serialized, under the text of its own key (integers and booleans as keys are their text) and holding its own '
     'value, and finishing one hands over all of it. Nothing is refused unless an inner serialization failed, a key is not text-like, or an '
     'integer does not fit in 64 bits.',
     'all values of all Serialize types; every Serializer method of the value builders (std and alloc) and of the root and key serializers',
     'serde has thirty entry points, twice over for the two builds; tests use a handful of types.',
     ['crates/toon/src/ser/stream.rs', 'crates/toon/src/ser/value_builder.rs', 'crates/toon/src/ser/value_builder_alloc.rs'],
     [('root', 'crates/toon/src/ser/stream.rs StreamingSerializer, ScalarStringSerializer, KeyStringSerializer'),
      ('value builder', 'crates/toon/src/ser/value_builder.rs'), ('alloc value builder', 'crates/toon/src/ser/value_builder_alloc.rs')],
     [p_ser.mapping, p_ser.runners], 130,
     'every path through every method of every Serializer and of its collections is followed symbolically, with the user\'s own serialize '
     'calls and the text formatting as opaque steps; the value, text or entry delivered on each path is compared, as a term over the '
     'arguments, with what the method stands for, and the conversions between number types must be lossless.', technique=SYM)

prop('I01', 'Decoding and encoding use exactly the options they are given',
     'decode_from_str scans the whole input, validates the indentation with options.indent if and only if options.strict is on, parses with '
     'that strictness and indentation step, expands dotted keys if and only if options.expand_paths is Safe (conflicts are errors if and only '
     'if options.strict is on), and deserializes exactly the resulting value. decode_from_reader does this with exactly the text the reader '
     'yields, encode_to_string serializes the value once from indentation 0 with the options given, and encode_to_writer writes all of that '
     'text. The parser keeps its strictness and indentation step while it parses.',
     'all inputs and options; default, alloc and all-features builds (with de_direct, typed targets use another deserializer, for which only '
     'scanning and validation are decided)',
     'The options multiply; tests try each one alone, on a few documents.',
     ['crates/toon/src/lib.rs', 'crates/toon/src/de/mod.rs', DEC + 'parser.rs', 'crates/toon/src/ser/stream.rs'],
     [('decoding', 'crates/toon/src/de/mod.rs from_str_via_internal_value'),
      ('parser options', DEC + 'parser.rs parse_to_internal_value_with_options'),
      ('encoding', 'crates/toon/src/ser/stream.rs to_string_streaming'), ('reader and writer API', 'crates/toon/src/lib.rs')],
     [p_api.library, p_api.kept], 8,
     'every path through the entry points is followed symbolically with the scanner, the validator, the parser, the expansion and the '
     'deserializer as opaque steps; on each successful path the arguments of the steps that ran, and those that did not run, are compared '
     'with what the facts of the path say about the options.', technique=SYM, over=('inputs', 'configurations'))

prop('I02', 'The command line and the WebAssembly binding are the library',
     'toon-cli reads the whole file given, or standard input if none is, and on success prints, once and with nothing else but line ends, '
     'the encoded text of the JSON value or the JSON text (pretty-printed if and only if --pretty is given) of the decoded document, using '
     'the delimiter and strictness of its flags and the library default of every other option. json_to_toon and toon_to_json return the same '
     'for their argument and parameters, run nothing on an argument longer than 10 MiB but return an error, and reject no shorter argument '
     'for its size.',
     'all inputs and combinations of flags and parameters',
     'The flags multiply, and the files behind them are rarely run in tests.',
     ['crates/toon-cli/src/main.rs', 'crates/toon-wasm/src/lib.rs'],
     [('command line', 'crates/toon-cli/src/main.rs main'), ('JSON to TOON', 'crates/toon-wasm/src/lib.rs json_to_toon'),
      ('TOON to JSON', 'crates/toon-wasm/src/lib.rs toon_to_json')],
     [p_api.fronts], 1,
     'every path through main, json_to_toon and toon_to_json is followed symbolically with the calls of the library, of serde_json and of '
     'the operating system as opaque steps; on each successful path the value printed or returned, the options built and the facts about '
     'flags and sizes are compared with the specification.', technique=SYM, over=('inputs', 'configurations'),
     note='how clap fills the argument structure is trusted')

NA = []


def na(pid, title, statement, text, why, files, mech, reason, over=('inputs',)):
    NA.append(dict(id=pid, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, reason=reason))


na('R01', 'Decoding what was encoded gives the value back',
   'For every value of the JSON data model and every set of options that is used on both sides, decoding the encoded text in strict mode '
   'succeeds and gives an equal value.',
   'all values and options', 'Tests encode a few dozen values; the property is about the whole tree of all of them.',
   [ENC + 'encoders.rs', 'crates/toon/src/ser/stream.rs', DEC + 'parser.rs'],
   [('encoder', ENC + 'encoders.rs encode_value'), ('decoder', DEC + 'parser.rs parse_document')],
   'Equality of the trees on both sides of two recursive programs is an induction that composes every writing function with every reading function; '
   'no analysis in reach computes that composition. What can be decided of it statically is claimed one piece at a time: strings and keys (E01 to E03, '
   'D02, D03), lines (D04, E06), headers (E05, D06), nesting (D05).')
na('R02', 'Floats are read and written without loss',
   'A float is written as the shortest decimal text without an exponent that reads back as the same float, and a number token that is not an '
   'integer of 64 bits is read as the float nearest to it.',
   'all floats and number tokens', 'Tests pin a few floats.',
   ['crates/toon/src/number.rs', ENC + 'primitives.rs'],
   [('writing', ENC + 'primitives.rs format_f64'), ('reading', DEC + 'parser.rs parse_scalar_token_at_line')],
   'Both directions rest on the numeric behaviour of the standard library (and of lexical-core with perf_lexical): the claim is about rounding of run-time values, '
   'which neither languages nor symbolic terms express. That the token is handed to the conversion unchanged, and which tokens are, is part of D02 and E05.')
na('R03', 'The streaming serializer and the value encoder write the same text',
   'For every value that can be serialized, encode_to_string gives the same text as encoding the serde_json value made from it, in every feature configuration.',
   'all values, options and feature configurations', 'Two implementations are compared by tests on a few values.',
   ['crates/toon/src/ser/stream.rs', ENC + 'encoders.rs'],
   [('streaming', 'crates/toon/src/ser/stream.rs'), ('values', ENC + 'encoders.rs')],
   'Equivalence of two programs whose loops and recursion differ. Each of the two is compared with the same grammar instead (E05, E06), which leaves open only where '
   'the format itself has a choice.', over=('inputs', 'configurations'))
na('R04', 'The direct deserializer gives what the ordinary one gives',
   'With de_direct, every document decodes to the same value, or fails, exactly when it does without.',
   'all documents and target types', 'The feature is off in the default test run.',
   ['crates/toon/src/de/direct.rs'], [('direct deserializer', 'crates/toon/src/de/direct.rs from_str')],
   'Equivalence of two parsers of different structure, and known not to hold (see DESIGN.md); its errors are covered by D08.', over=('inputs', 'configurations'))
na('R05', 'No input makes the library crash or hang',
   'Encoding and decoding end for every input, without panic, stack overflow or endless loop.',
   'all inputs and options', 'Tests use small inputs.',
   [DEC + 'parser.rs', DEC + 'scanner.rs', ENC + 'encoders.rs'],
   [('recursive descent', DEC + 'parser.rs parse_node'), ('nested values', ENC + 'encoders.rs encode_value')],
   'The recursion has no depth limit, so that the property does not hold as stated for deep nesting, and the stack left is a run-time quantity. That loops of the parser '
   'move the line index is implied by D09 where a line is consumed; panics as a substitute for errors are part of D08; indices into text are not bounded in general by these analyses.')
na('R06', 'Encoding and decoding take time and memory linear in their input',
   'The work done for a document grows in proportion to its length, whatever its content.',
   'all inputs', 'Benchmarks measure a few documents.',
   [DEC + 'parser.rs', ENC + 'encoders.rs'], [('parser', DEC + 'parser.rs'), ('encoder', ENC + 'encoders.rs')],
   'Cost depends on run-time sizes and on the allocator; no cost analysis for Rust is at hand, and one built here would rest on unchecked bounds.')

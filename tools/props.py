#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
VM=["src/vm/vm_exec.c","src/vm/vm_internal.h"]
CP=["src/compiler/cnd_parser.c","src/compiler/cnd_utils.c","src/compiler/cndc.c"]
API="cnd_execute/cnd_init return values, callback events and the data buffer"

prop("C01","The VM never touches memory outside its buffers, whatever the IL or data",
 "For any bytecode (well formed, corrupted or random), any data buffer and any callback answers, loading and executing the program in either mode reads and writes only the program image, the given data buffer and the context, performs no undefined arithmetic, and either returns one of the documented error codes or success. On return the reported cursor never exceeds the length of the data buffer.",
 ["inputs","programs"],"all IL images x data buffers x lengths x callback answers, both modes",
 "The tests run a few dozen hand-made programs on well-sized buffers; the claim is about every hostile program and packet.",
 VM+["src/vm/vm_verify.c"],[("bounds checks before each access","src/vm/vm_exec.c HANDLE_PRIMITIVE/HANDLE_STRING_PRE/..."),("bit reader/writer bounds","src/vm/vm_internal.h read_bits/write_bits")],
 ["AddressSanitizer/UBSan reports on exact-size heap buffers",API],[("cursor","next byte of the data buffer","include/concordia.h cnd_vm_ctx")])
prop("C02","Encoding writes exactly the bytes the schema describes",
 "For every schema of integer, float, bool, constant and nested-struct fields with any mix of byte-order annotations, encoding a record produces exactly the concatenation, in declaration order, of each field's value at its declared width and byte order (little endian unless a packet-level or field-level annotation says otherwise), and the reported length is the sum of those widths. A byte-order annotation on one field affects that field only.",
 ["inputs","programs"],"all schemas of scalar fields x all values x both byte orders",
 "Unit tests check a handful of fixed packets; combinations of decorators, nesting and values are unbounded.",
 VM+CP,[("endianness state","src/vm/vm_exec.c OP_SET_ENDIAN_*"),("per-field endianness emission","src/compiler/cnd_parser.c parse_field")],[API])
prop("C03","Decoding an encoded record gives back the same record",
 "For every schema the compiler accepts and every record valid for it, decoding the bytes produced by encoding succeeds, consumes exactly those bytes and reports the same fields, in the same order, with the same values and the same struct, array and string structure. Re-encoding the decoded values reproduces the same bytes.",
 ["inputs","programs"],"all schemas mixing every language feature x all valid records",
 "Round trips in the tests cover single features with one value each; interactions (switch in array in nested struct with bitfields ...) are not sampled.",
 VM+CP,[("one bytecode for both directions","src/vm/vm_exec.c cnd_execute")],[API])
prop("C04","Bit fields, padding and alignment land on exactly the described bits",
 "Bit fields are packed contiguously from the current bit position, least significant bit first in little-endian mode and most significant bit first in big-endian mode, a value keeps its low N bits (sign-extended on decode for signed types), @pad(n) advances n bits, @fill completes the byte with the given bit, and any byte-sized field that follows starts on the next byte boundary. As long as the bits sharing a byte use one byte order, no bits belonging to a neighbouring field are altered.",
 ["inputs","programs"],"all sequences of bit fields of widths 1..64, pads, fills and byte fields, both bit orders, all values",
 "The tests use at most three small fields; width/offset/order combinations crossing byte boundaries are in the tens of thousands.",
 VM+["src/compiler/cnd_parser.c"],[("read_bits/write_bits","src/vm/vm_internal.h"),("alignment table","src/vm/vm_exec.c ALIGN_TABLE")],[API],[("bit_offset","bit position within the current byte","include/concordia.h")])
prop("C05","Arrays carry exactly their declared number of elements in order",
 "Fixed, length-prefixed, field-counted and until-end-of-data arrays, of any element type and nesting up to the documented loop depth, encode and decode exactly the declared number of elements in order, report the count at the array's start and one end event, and an empty array contributes only its prefix and does not disturb the fields after it. The result is the same whether or not the host takes the bulk byte path.",
 ["inputs","programs"],"all array kinds x element types x counts (including 0 and the prefix maximum) x nestings",
 "Tests use one or two small non-empty arrays; empty arrays of complex elements and nested mixtures are not covered.",
 VM+["src/compiler/cnd_parser.c"],[("loop stack","src/vm/vm_exec.c loop_push/OP_ARR_END"),("empty-array skip","src/vm/vm_exec.c skip_loop_body"),("bulk path","src/vm/vm_exec.c try_optimize_byte_array")],[API],[("loop_stack","active array frames","include/concordia.h")])
prop("C06","Strings are delimited exactly and never lose or invent bytes",
 "A length-prefixed string (cut to the largest length its prefix can express) encodes its byte length in the declared prefix followed by its bytes, a terminated string encodes at most its maximum number of bytes followed by one zero byte; decoding hands the host the same bytes and continues right after them. A terminated string with no terminator within its maximum length, or a length prefix larger than the remaining data, is an error.",
 ["inputs","programs"],"all string kinds x lengths around 0, max, prefix limits and the end of the buffer x contents",
 "Tests use short strings well inside the limits.",
 VM+["src/compiler/cnd_parser.c"],[("OP_STR_NULL/OP_STR_PRE_*","src/vm/vm_exec.c")],[API])
prop("C07","Validation accepts exactly the values the schema allows",
 "In both directions a record is accepted only if every @range field lies within its inclusive bounds under the field's own type and signedness (a NaN is never within a range), every enum field holds one of the declared values, every bool is 0 or 1 and every constant on the wire equals its declared value; otherwise execution reports a validation error. A record that satisfies all of them is never rejected.",
 ["inputs","programs"],"all integer/float types x bounds x values at and around the bounds, enums with arbitrary value sets, both byte orders and modes",
 "Tests try one value inside and one outside for a few types.",
 VM+["src/compiler/cnd_parser.c"],[("OP_RANGE_CHECK, OP_ENUM_CHECK, OP_CONST_CHECK","src/vm/vm_exec.c"),("emit_range_check","src/compiler/cnd_parser.c")],[API])
prop("C08","CRC fields hold the defined checksum and detect every burst up to their width",
 "A CRC-16 or CRC-32 field written on encode equals the parametrised CRC (polynomial, initial value, final xor, input and output reflection) of all bytes before it in the packet, in the field's byte order, and decoding accepts the packet only if it matches. With a standard polynomial, changing any bits spanning no more than the CRC width in the covered bytes or the CRC itself makes decoding fail with the CRC error.",
 ["inputs","programs"],"all parameter sets x packet contents x corruption positions and patterns",
 "Tests check the default parameters on one packet.",
 VM+["src/compiler/cnd_parser.c"],[("calc_crc and the table fast path","src/vm/vm_exec.c")],[API])
prop("C09","A buffer that is too short is always an error, never silent truncation",
 "For a record needing N bytes, encoding into a buffer of any smaller capacity fails and writes nothing beyond it, and succeeds with any capacity of at least N; decoding any strict prefix of a packet without optional or until-end fields fails. A failed run never reports success with missing fields.",
 ["inputs","programs","fault_sequences"],"all schemas x records x every capacity from 0 to N+slack x every prefix length",
 "Tests cut one or two packets at one point; every cut point of every layout, including inside bit fields, padding, strings and CRCs, matters.",
 VM,[("cursor + size > data_len checks","src/vm/vm_exec.c"),("bit bounds","src/vm/vm_internal.h")],["guard bytes after exact-size buffers under ASan",API])
prop("C10","Conditionals and switches select exactly the described fields",
 "An if/else chain processes the fields of the first branch whose condition is non-zero (the else branch otherwise) and a switch processes exactly the case equal to the discriminator, else the default, else nothing, in both directions and at any nesting inside structs, arrays and other branches; processing then continues with the field after the construct. This holds whichever dispatch form the compiler picks and for all 64-bit discriminator values.",
 ["inputs","programs"],"all if/switch nestings x case value sets (dense, sparse, negative, extreme) x discriminators",
 "Tests use two or three cases with one discriminator each.",
 VM+["src/compiler/cnd_parser.c"],[("parse_switch/parse_if","src/compiler/cnd_parser.c"),("OP_SWITCH, OP_SWITCH_TABLE, OP_JUMP*","src/vm/vm_exec.c")],[API])
prop("C11","Expressions evaluate to their mathematical value under the documented operators",
 "An @expr field or an if condition evaluates, for every operand value, to the result of the C-like expression as written: usual precedence and left associativity, parentheses and unary operators honoured, unsigned 64-bit integer arithmetic, double arithmetic as soon as an operand is a floating point expression, logical operators evaluating both operands to 0 or 1, shifts of 64 or more giving 0. Division or remainder by zero and invalid function domains are reported as an arithmetic error, and the value decoded equals the value encoded.",
 ["inputs","programs"],"all expression trees within the stack limit x operand values",
 "Tests evaluate a dozen fixed expressions, none with unary operators or grouping on the left.",
 ["src/compiler/cnd_parser.c","src/vm/vm_exec.c"],[("Pratt parser","src/compiler/cnd_parser.c parse_precedence"),("ALU","src/vm/vm_exec.c")],[API],[("expr_stack","operand stack","include/concordia.h")])
prop("C12","Value transforms map wire values to engineering values and back consistently",
 "For a field with @scale/@offset, @add, @sub, @mul, @div, @poly or @spline the host sees on decode the engineering value defined by the formula applied to the raw wire value, and encoding that engineering value (for a polynomial or spline: one obtained by decoding, of a monotone curve and within its knots) yields a raw value that decodes to it again within the formula's resolution. A transform affects only the field (every element, for an array) that declares it.",
 ["inputs","programs"],"all transforms x parameters x wire types x raw values, with neighbours of every kind",
 "Tests use one scale factor and one polynomial on one type.",
 VM+["src/compiler/cnd_parser.c"],[("HANDLE_PRIMITIVE/HANDLE_FLOAT transform paths, vm_math_*","src/vm/vm_exec.c")],[API],[("trans_type","pending transform","include/concordia.h")])
prop("C13","Optional trailing fields are read if present and defaulted if absent",
 "Decoding a packet cut exactly before a trailing run of @optional fields succeeds, reports every field present on the wire with its value and every absent scalar as zero (through no transform), and does not apply the absent field's validation; decoding the full packet reports all of them. A field that is not optional is still an error when missing, and being optional never changes how a present field is read.",
 ["inputs","programs"],"all schemas with trailing optional fields (all types, with byte order, range, enum, transforms) x every cut",
 "Tests have two packets with one optional integer.",
 VM+["src/compiler/cnd_parser.c"],[("is_next_optional","src/vm/vm_exec.c")],[API])
prop("C14","Every event names its field by its full dotted path",
 "While executing a compiled schema, each callback identifies its field by a key whose name is the field's declared name prefixed by the names of the enclosing struct fields joined with dots, struct enter/exit and array start/end events are balanced and properly nested, and looking that name up yields the same key. Reusing a struct any number of times, at any depth, inside arrays and branches or under a packet alias, changes nothing but the prefix.",
 ["inputs","programs"],"all struct nestings and reuses, with every decorator inside the nested structs",
 "Tests nest plain fields one or two levels.",
 CP+["src/vm/vm_exec.c"],[("buf_append_with_prefix","src/compiler/cnd_utils.c"),("optimize_strings","src/compiler/cndc.c")],[API,"cnd_get_key_name/cnd_get_key_id"])
prop("C15","Independent executions of one program do not influence each other",
 "Any number of contexts, on any number of threads and in any interleaving, may execute the same loaded program at once, and each produces the same result code, events and bytes as when run alone; rerunning the same input always gives the same result. Execution never modifies the program image, never reads data left over from earlier runs and shares no mutable state.",
 ["schedules","inputs","histories"],"all interleavings of executions of one program by several contexts",
 "The tests are single threaded and run each context once.",
 VM,[("stateless VM, all state in cnd_vm_ctx","src/vm/vm_exec.c cnd_init")],["ThreadSanitizer reports","read-only program pages",API])
prop("C16","Loading and executing a program never allocates memory or does I/O",
 "Loading an image, verifying it, initialising a context and executing it in either direction performs no dynamic allocation and no input/output, and uses a stack whose depth does not depend on the program or the data.",
 ["inputs","programs"],"all programs and data, both directions, success and error exits",
 "No test observes allocation or stack use.",
 VM+["src/vm/vm_verify.c"],[("fixed-size context","include/concordia.h")],["interposed malloc/calloc/realloc/free and write/printf during VM calls","stack high-water mark"])
prop("C17","Nesting and expression limits are enforced exactly",
 "Arrays (other than byte arrays taken in bulk, which need no frame) nested up to the documented maximum depth and expressions needing up to the documented maximum stack work, one level more is reported as an error in both directions without damaging anything, and every frame is released when its construct ends, so constructs in sequence never accumulate towards the limit whatever their element counts.",
 ["inputs","programs","histories"],"all nestings around the limits and arbitrarily long sequences of arrays, empty arrays, branches and expressions",
 "Tests check one over-deep nesting; leaks need long sequences with empty arrays.",
 VM,[("CND_MAX_LOOP_DEPTH, CND_MAX_EXPR_STACK","include/concordia.h"),("loop_push/loop_pop, stack_push","src/vm/vm_exec.c")],[API])
prop("C18","Loading an IL image validates it and key lookup stays inside it",
 "For any byte sequence, loading succeeds only if it has the right magic, version, and string table and bytecode offsets inside the image with every counted string terminated inside it; otherwise it reports an error. After a successful load, name-by-key and key-by-name lookups are inverse for the first occurrence of each name, return nothing for unknown keys or names, and never read outside the image. A call without its program, image, name, context, data or bytecode is answered with an error (or as an unknown name), and every error code has a text of its own.",
 ["inputs"],"all byte sequences, in particular every header field value and every truncation of valid images",
 "Tests load one valid image and one with a bad magic.",
 ["src/vm/vm_exec.c"],[("cnd_program_load_il, cnd_get_key_name, cnd_get_key_id, cnd_error_string","src/vm/vm_exec.c")],["ASan on exact-size images","return values"])
prop("C19","The verifier accepts every compiled schema and rejects malformed bytecode",
 "The bytecode verifier accepts the output of the compiler for every schema it compiles, and rejects any truncation of it inside an instruction, any unknown opcode where an instruction starts, and any jump or table offset leading outside the program. It terminates without reading outside the bytecode for any input.",
 ["programs","inputs"],"all compiled programs, all their truncations and single-instruction corruptions, and arbitrary byte strings",
 "Tests verify six hand-written programs, none produced by the compiler.",
 ["src/vm/vm_verify.c"],[("instruction table and jump targets","src/vm/vm_verify.c cnd_verify_program")],["cnd_verify_program return value under ASan/UBSan"])
prop("C20","The compiler survives any input text and never emits IL for a rejected one",
 "For any input file, valid or not, compilation terminates without crashing or undefined behaviour; it either returns success and writes a complete IL image that loads and verifies, or returns failure with at least one diagnostic and writes no output file.",
 ["inputs"],"all byte strings as source, in particular mutated and truncated real schemas, deep nesting, long names and extreme numbers",
 "Tests compile a few dozen small, mostly valid sources.",
 CP+["src/compiler/cnd_lexer.c","src/cli/cmd_compile.c"],[("error recovery","src/compiler/cnd_parser.c parser_error"),("lexer","src/compiler/cnd_lexer.c")],["exit status, diagnostics, output file","ASan/UBSan reports"])
prop("C21","Schemas that violate a language rule are rejected",
 "A schema that breaks a language rule is refused with a diagnostic and yields no IL: duplicate type, field, enum-member or case names or values, unknown or recursive types, missing or multiple packets, literals that do not fit the field's type or the operand's encoding (constants, ranges, enum values, bit widths, padding, versions, CRC widths), decorators on types that cannot carry them, and unaligned structs not ending on a byte boundary. The same schema without the violation is accepted.",
 ["programs","inputs"],"every rule x every place in randomly generated valid schemas where it can be broken",
 "Tests break some rules once, in minimal schemas.",
 ["src/compiler/cnd_parser.c"],[("checks in parse_field/parse_enum/parse_struct/parse_switch","src/compiler/cnd_parser.c")],["compile exit status, diagnostics, output file"])
prop("C22","Compilation is deterministic and depends only on the tokens",
 "Compiling the same source twice, from any working directory or path, verbosely or not, gives byte-identical IL, and so does any rewriting that keeps the token sequence: white space, line endings, line and block comments, doc comments where declarations may stand, type aliases such as u8/uint8/byte, hexadecimal or decimal spelling, and adding, removing or moving unused types that share no names with the rest.",
 ["inputs","programs"],"all schemas x token-preserving rewritings",
 "Tests compile each source in one layout only.",
 ["src/compiler/cnd_lexer.c"]+CP,[("lexer_next","src/compiler/cnd_lexer.c"),("optimize_strings","src/compiler/cndc.c")],["IL bytes"])
prop("C23","Imports behave as if the definitions were written in place, once",
 "A schema split over files with @import, in any acyclic or diamond arrangement of directories and however the paths are spelled, compiles to the same IL as the single-file schema with each file's definitions included once at its first import; paths resolve relative to the importing file. A missing file, a directory, or a cycle that leaves a type undefined is an error, never a hang or a crash.",
 ["programs","configurations"],"all import graphs, path spellings (./, ../, symlinks, repeated) and splittings of schemas",
 "Tests import one file, one diamond and one cycle.",
 ["src/compiler/cnd_parser.c","src/compiler/cnd_utils.c"],[("parse_import, cnd_canonicalize_path","src/compiler/cnd_parser.c")],["IL bytes, exit status"])
prop("C24","Formatting a schema preserves its meaning and comments and is idempotent",
 "For every schema the compiler accepts, the formatted text compiles to byte-identical IL and contains every comment of the original in order, and formatting the formatted text again changes nothing. Formatting arbitrary text never crashes, and changes nothing but white space.",
 ["inputs","programs"],"all accepted schemas in arbitrary layouts; all byte strings for robustness",
 "No test exercises the formatter.",
 ["src/compiler/cnd_fmt.c","src/cli/cmd_fmt.c"],[("cnd_format_source","src/compiler/cnd_fmt.c")],["cnd fmt output, IL bytes before/after"])
prop("C25","JSON through the CLI survives an encode/decode round trip",
 "For every compiled schema and valid record, `cnd encode` of the JSON record produces the same bytes as the VM with a native host, and `cnd decode` of those bytes yields JSON with the same structure and values (64-bit integers exact from decoding and up to 2^53 through encoding, finite floats to their precision, strings without NUL byte for byte, with field names distinct within each object). A JSON value of the wrong kind, range or array length is refused. When encoding or decoding fails the exit status is non-zero and no output file is produced.",
 ["inputs","programs"],"all schemas x records x both CLI directions",
 "The repository tests do not run the CLI.",
 ["src/cli/json_binding.c","src/cli/cmd_encode.c","src/cli/cmd_decode.c","src/cli/cli_helpers.c"],[("json_io_callback","src/cli/json_binding.c")],["CLI exit status, output files"])
prop("C26","CLI commands survive malformed IL, JSON and binary files",
 "Every CLI command given any files (corrupted or truncated IL, JSON of the wrong shape, type or size, arbitrary binary data, missing or empty files, directories, wrong argument counts, outputs that cannot be written) terminates without memory errors or undefined behaviour (a damaged program whose own jumps or counts describe an endless run may run that long), and reports failure through a message and a non-zero exit status when it cannot do its job; encode, decode and compile then leave an existing output file alone unless writing it was what failed.",
 ["inputs","fault_sequences"],"all file contents and argument lists for encode, decode, inspect, compile, fmt",
 "The repository tests do not run the CLI.",
 ["src/cli/json_binding.c","src/cli/cmd_inspect.c","src/cli/cmd_encode.c","src/cli/cmd_decode.c","src/cli/cli_helpers.c","src/cli/main.c"],[("read_file_bytes, il_load","src/cli/cli_helpers.c")],["CLI exit status, sanitizer reports"])
prop("C27","The disassembly shows exactly the program that was compiled",
 "`cnd inspect` of a compiled schema lists every string with its key and every instruction once, at its true offset, in order, with its operands (keys and names, counts, widths, constants, bounds in min-max order, CRC parameters in order, jump offsets, switch tables), covering the bytecode completely and decoding no operand or table byte as an instruction.",
 ["programs"],"all compiled schemas",
 "No test runs the disassembler.",
 ["src/cli/cmd_inspect.c"],[("instruction decoder","src/cli/cmd_inspect.c")],["cnd inspect output versus an independent decoding of the image"])
prop("C28","The language server answers every request and survives any message",
 "For any sequence of well-framed JSON-RPC messages the server answers each request (a message with an id that names a request method, a method nobody knows or no method) exactly once, with the same id, correct framing and either a result or an error (-32700 not JSON, -32600 no request, -32601 unknown method, -32602 missing document or position), without waiting for the next message; it sends nothing for notifications other than diagnostics, keeps running until told to exit or the input ends, and then ends with status 0. For each opened, changed or saved document it publishes once the diagnostics the compiler reports for that text at that place (same lines and messages; an empty list exactly when it compiles). Text sent by the editor counts before the file on disk, until the document is closed. A type name anywhere in the document resolves to the file and line of its declaration, also over imports and percent-encoded names and past non-ASCII text (positions count UTF-16 units), and other words resolve to nothing; hovering over it shows that place, the documentation written above it and no other, and for an enum its base type and every member with its value; the document symbols are exactly the types declared in the document, with their lines; formatting yields the formatter's text for the whole document; after `Enum.` exactly its members are offered, and where an expression or a count begins inside a struct at least that struct's plain fields (in an expression the functions too), and elsewhere outside of parentheses at least the types. Malformed messages, parameters, texts, headers or positions never crash it.",
 ["histories","inputs"],"all message sequences, document texts and cursor positions",
 "The repository tests do not run the language server.",
 ["src/cli/cmd_lsp.c"],[("message loop and handlers","src/cli/cmd_lsp.c")],["JSON-RPC traffic on stdin/stdout","sanitizer reports"])
prop("C29","The Go binding behaves exactly like the C VM",
 "For every program, input and handler, encoding and decoding through the Go package (a loaded Program or the one-shot Execute) gives the same bytes, the same sequence of handler calls with the same keys, types and values, and the same error as the C API, an empty buffer included; decoding leaves the caller's bytes alone, key names and ids are the C ones, and damaged images are refused alike. A handler's error, a missing handler, and the use of a closed, zero or nil program come back as Go errors, not as panics or crashes. Several goroutines may run programs, shared or their own, at the same time, with the results of lone runs and no data race.",
 ["inputs","programs","schedules"],"all compiled schemas x records x error cases, several goroutines",
 "The Go package has no tests.",
 ["go/concordia.go","go/bridge.c"],[("callback registry and pointer conversions","go/concordia.go")],["Go handler calls, returned errors, bytes; C driver trace of the same case","race detector and AddressSanitizer reports"])
prop("C30","Generated bindings carry exactly the header's constants",
 "For the shipped header, and any header that adds, removes, renumbers or reformats opcodes and error codes in the same style (one constant per line with a literal or no value), the binding generator's output for every supported target defines each constant exactly once with the value the C compiler gives it; the checked-in Go constants equal the generator's output. An unreadable header or an unknown target ends with an error status and no output.",
 ["inputs","configurations"],"all headers of the same style x all targets",
 "CI compares one generated file for the current header with the checked-in copy, which proves nothing about its values.",
 ["src/tools/gen_bindings.c","include/concordia.h","go/consts.go"],[("header scanner","src/tools/gen_bindings.c")],["generator output versus values printed by a compiled C program"])
prop("C31","Diagnostics point at the offending line and machine output is well formed",
 "When compilation fails, the first diagnostic names the file (the imported file if the error is there) and the line on which the offending token stands, counting lines correctly across all comment styles and LF or CRLF line endings; with --json every output line is a valid JSON object carrying the same file, line and message whatever characters the source and its path contain.",
 ["inputs","programs"],"all erroneous schemas (an error injected at any token of a random schema, with arbitrary comments and paths)",
 "Tests only check that compilation fails.",
 ["src/compiler/cnd_parser.c","src/compiler/cnd_lexer.c","src/cli/cmd_compile.c"],[("parser_error","src/compiler/cnd_parser.c"),("line counting","src/compiler/cnd_lexer.c")],["compile output in text and JSON mode"])
prop("C32","A refusal by the host stops execution and is reported",
 "When the host's callback refuses any field, query, count or structure event, in either direction, execution stops there: no further callback is made and the callback error is returned; the events before it are those of the undisturbed run. The only exception is the bulk byte offer, whose refusal falls back to the element-wise path with the same result, and an optional trailing string refused while encoding, which is left out.",
 ["inputs","programs","fault_sequences"],"all schemas x records x every callback of the run refused in turn",
 "Tests never let a callback fail in the middle of a packet.",
 VM,[("io_callback result checks","src/vm/vm_exec.c HANDLE_PRIMITIVE and every opcode that calls back")],[API])
prop("C33","Repeated use does not accumulate memory",
 "Compiling or formatting any text through the library (accepted or refused, with imports, with an output that cannot be written), handling any language-server session, and loading, running and closing programs through the Go package (refused images, failing or refusing runs and damaged data included) release everything they took: repeating the same work leaves no more memory, open files, Go objects or goroutines behind than before.",
 ["histories","inputs"],"all texts, sessions and Go runs, repeated",
 "The tests run each piece of work once per process and do not measure memory.",
 ["src/compiler/cndc.c","src/compiler/cnd_parser.c","src/compiler/cnd_utils.c","src/compiler/cnd_fmt.c","src/cli/cmd_lsp.c","go/concordia.go","go/bridge.c"],[("free paths of the compiler","src/compiler/cndc.c"),("Program.Close and callback registry","go/concordia.go")],["live heap bytes and open files after repeated work","Go heap objects and goroutines"])
prop("C34","The same behaviour on every target: 32-bit sizes, unsigned characters",
 "The VM built for a target whose pointers and sizes have 32 bits touches no memory outside the image and the buffer it was given (also for lengths, counts and tables near the limits of 32 bits), and encodes and decodes to the same bytes, values, events and errors as on a 64-bit host; whether the target's plain char is signed or unsigned changes neither that nor the image, diagnostics and formatted text the compiler and formatter produce.",
 ["inputs","histories"],"all schemas, values, data, programs and texts, on targets of either width and either sign of char",
 "The tests run only on the machine they are built on (64 bits, signed char).",
 ["src/vm/vm_exec.c","src/vm/vm_io.c","src/vm/vm_internal.h","src/vm/vm_verify.c","src/compiler/cnd_lexer.c","src/compiler/cnd_parser.c","src/compiler/cnd_fmt.c"],[("cnd_execute","src/vm/vm_exec.c"),("read/write helpers","src/vm/vm_io.c"),("lexer","src/compiler/cnd_lexer.c")],["bytes, events and errors on each build","image, diagnostics and formatted text of each build"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")

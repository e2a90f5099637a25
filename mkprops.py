#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the text is easy to review)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,
           quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=[observe]
    if hook: d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Interpreting a format yields exactly what its combinators mean",
 "For every well-typed format the library accepts and every input, interpreting the format gives exactly the outcome its combinators are documented to mean: the same success or failure, the same value, the same number of consumed bytes and the same recorded soft errors. Sequencing, choice, every kind of repetition, peeking, slices, bit mode, relative offsets, alignment, views, re-decoding, mapping, conditions, permits and calls compose without one construct changing the meaning of another. A well-typed format is never turned away by the compiler when its choices are decidable by one byte of lookahead.",
 ["programs","inputs"],"all formats built from the combinators up to a nesting depth, crossed with all byte strings up to a length over a small alphabet",
 "The meaning is compositional: bugs live in the pairing of a combinator with the context it is nested in (scope, lookahead tail, slice limits), and the existing tests sample a few dozen hand-picked format/input pairs.",
 ["src/decoder.rs","src/format.rs","src/lib.rs","src/read.rs","src/scope.rs"],
 [("decoder interpreter","src/decoder.rs:Decoder::parse"),("compilation to decoders","src/decoder.rs:Compiler::compile_format"),("input cursor","src/read.rs")],
 "result of running a compiled program on a byte buffer")

p("C02","Deterministic choice recognises exactly the regular language it denotes",
 "For formats built from bytes, sequencing, alternation and repetition (also under constructs that pass the bytes through: names, maps, conditions that hold, local definitions, captured views, exact slices, peeks at what follows), whenever the compiler accepts the format, an input is accepted as a whole exactly when it belongs to the regular language the format documentation assigns to it, and the returned parse tree spells that input. Formats whose alternatives cannot be told apart are refused at compile time instead of silently picking a branch. Lookahead therefore never commits to a branch or a repetition count that loses an input the format describes.",
 ["programs","inputs"],"all regular formats up to a size, crossed with all byte strings up to a length over the alphabet the format distinguishes",
 "Branch selection is computed from the whole format and what follows it; a wrong lookahead tree only shows on the particular tail and input where two alternatives first differ.",
 ["src/lib.rs","src/decoder.rs","src/byte_set.rs","src/format.rs"],
 [("lookahead tree construction","src/lib.rs:MatchTreeStep, MatchTreeLevel, Next"),("branch selection","src/lib.rs:MatchTree::matches"),("repeat exits","src/decoder.rs:Compiler::compile_format")],
 "whole-input acceptance and value")

p("C03","The position-tracking decoder agrees with the plain one and reports true spans",
 "For every format and input, decoding with source positions succeeds exactly when plain decoding does, yields the same value and consumes the same bytes. Every reported span lies inside the input, every parent's span covers those of the parts it was read from in order, and a byte read from the input is reported at the offset where that byte is. ",
 ["programs","inputs"],"all formats up to a nesting depth and all inputs up to a length, each run through both decoders",
 "The two decoders are separate hand-written interpreters of the same program; any combinator or expression can drift in either, and tests exercise the position-tracking one on only a few samples.",
 ["src/loc_decoder.rs","src/decoder.rs"],
 [("position-tracking interpreter","src/loc_decoder.rs:Decoder::parse_with_loc"),("value with location","src/loc_decoder.rs:ParsedValue")],
 "values and spans returned by the position-tracking run")

p("C04","Generated Rust decoders behave like the interpreter for every format",
 "For every format the library accepts and generates Rust code for, the compiled decoder accepts exactly the inputs the interpreter accepts, stops at the same position and returns the same value (the same field and variant structure, elements and numbers), and it does not panic where the interpreter returns an ordinary result. The code generated for nestings of the format constructors compiles; this includes the complete decoder generated from the shipped format definitions.",
 ["programs","inputs"],"all one-step nestings and pairings of the format constructors, all chains of wrappers, every operator of the expression language and every two-operator composition over parsed arguments, and the shipped formats, each generated, compiled and run on all inputs up to a length",
 "The generator is a second implementation of every construct (types, ownership, scoping, lookahead, bit mode); the repository only compiles and tests the code generated for its own fixed formats.",
 ["src/codegen/mod.rs","src/codegen/typed_format.rs","src/codegen/typed_decoder.rs","src/codegen/model.rs","src/typecheck.rs","src/prelude.rs","src/parser/mod.rs"],
 [("code generation","src/codegen/mod.rs:generate_code"),("typed elaboration","src/codegen/mod.rs:Elaborator"),("runtime","src/parser/mod.rs, src/prelude.rs")],
 "compiled output of the generator versus the interpreter")

p("C05","The generated-code runtime keeps cursor, slice, bit and backtracking state exact",
 "For every sequence of runtime operations (read, skip, align, open and close slices, enter and leave bit mode, peek, negative peek, seek, open alternatives, recover) the observable position, remaining bytes, end-of-input answer and bytes returned equal those of a simple model of nested windows over the input. No read ever returns data from outside the innermost window, and closing a construct restores exactly the state its opening promised. Overruns, and closing what was never opened, are reported as errors, never as panics or wrong data.",
 ["histories","inputs"],"all operation sequences up to a depth over inputs up to a few bytes",
 "State is a stack of lenses over a mixed byte/bit offset; errors need particular interleavings of nested opens and closes that fixed tests do not reach.",
 ["src/parser/mod.rs","src/parser/offset.rs","src/parser/view.rs","src/parser/error.rs"],
 [("operations","src/parser/mod.rs:Parser"),("offset and lens stack","src/parser/offset.rs:BufferOffset, ByteOffset"),("views","src/parser/view.rs:View")],
 "return values and queries of the runtime parser")

p("C06","Shipped decoders agree with their format definitions on damaged input",
 "For every shipped file format, the committed generated decoder and the interpreted format definition agree on every input: both accept with the same decoded content or both reject. This holds for valid files and for files cut short or corrupted anywhere.",
 ["inputs","fault_sequences"],"for each sample file and each hand-built minimal file: every truncation point and every single-byte substitution from a fixed set at every offset within a bounded prefix",
 "Agreement is tested on a handful of intact samples; the error paths that differ are reached only by damage at specific offsets.",
 ["generated/gencode.rs","generated/api_helper.rs","doodle-formats/src/format.rs","src/decoder.rs","src/parser/mod.rs"],
 [("committed decoders","generated/gencode.rs"),("format definitions","doodle-formats/src/format/*.rs")],
 "accept/reject and decoded value of both decoders")

p("C07","Compressed streams decode to exactly the original bytes",
 "For every valid DEFLATE stream - stored, fixed-code and dynamic-code blocks in any sequence, with any mix of literals and back-references including overlapping ones - decoding reproduces exactly the bytes that were compressed. Invalid block types, bad stored-length complements, undefined codes and truncated streams are rejected rather than decoded to something else.",
 ["inputs","histories"],"all token sequences up to a length per block kind, all block-kind sequences up to a length, plus every length and distance code and all single-bit corruptions of headers",
 "Correct decompression depends on combinations of block kinds, window contents and code tables; the tests decompress a few files.",
 ["doodle-formats/src/format/deflate.rs","doodle-formats/src/format/zlib.rs","doodle-formats/src/format/gzip.rs","generated/gencode.rs","src/prelude.rs","src/decoder.rs"],
 [("deflate format","doodle-formats/src/format/deflate.rs"),("window expansion","src/decoder.rs:Expr::FlatMapList, Expr::SubSeqInflate"),("code tables","src/decoder.rs:make_huffman_codes")],
 "decompressed payload from interpreter and generated decoder")

p("C08","Text decoding accepts exactly well-formed UTF-8",
 "Decoding text accepts exactly the byte strings that are well-formed UTF-8 and yields exactly the characters they encode; overlong forms, surrogates, out-of-range code points and truncated sequences are never accepted as text.",
 ["inputs"],"every Unicode scalar value, and every byte string of up to four bytes over class-representative bytes",
 "The rule is a table of byte ranges; a single wrong range boundary affects inputs no sample file contains.",
 ["doodle-formats/src/format/text.rs","generated/gencode.rs"],
 [("utf-8 format","doodle-formats/src/format/text.rs")],
 "accepted strings and characters from interpreter and generated decoder")

p("C09","Byte sets obey set algebra over all 256 bytes",
 "Byte sets behave as mathematical sets over the 256 byte values: construction from ranges, lists and complements, membership, union, intersection, difference, complement, size, emptiness, extremes, iteration and insertion all agree with the set they denote, and disjointness or inclusion tests answer truthfully.",
 ["inputs","histories"],"all sets drawn from a family that exercises every 64-bit word boundary, all pairs of them under every operation, and all short operation sequences",
 "The representation packs four words; mistakes hide at word boundaries and in the combination of operations.",
 ["src/byte_set.rs","src/byte_set/pretty_print.rs"],
 [("packed bit set","src/byte_set.rs:ByteSet")],
 "public queries on byte sets")

p("C10","Static size bounds always contain the true size",
 "The static bounds computed for an integer expression contain every value the expression can take, the bounds computed for how many bytes a format consumes contain every consumption of a successful parse, and the lookahead bound is never below what the format reads ahead of its position (reading through a captured view aside). Nothing is ever declared impossible that an execution can exhibit.",
 ["programs","inputs"],"all expressions up to a depth over boundary constants and unknowns; all formats up to a nesting depth with all inputs up to a length",
 "Bounds drive whether a repetition is allowed and how far the compiler looks ahead; an unsound case silently miscompiles only the formats whose size hits it.",
 ["src/bounds.rs","src/format.rs","src/lib.rs"],
 [("interval arithmetic","src/bounds.rs:Bounds"),("expression bounds","src/lib.rs:Expr::bounds"),("format bounds","src/format.rs:Format::match_bounds, Format::lookahead_bounds")],
 "bounds compared with executions","read-only access to the computed bounds of formats and expressions")

p("C11","Expressions evaluate to their mathematical value",
 "Every well-typed expression evaluates to the value its operators denote, in both the plain and the position-tracking evaluator: checked integer arithmetic, comparisons, casts, byte-order assembly, tuples, records, variants, options, pattern matching with bindings, and all sequence operations (length, indexing, sub-sequences, duplication, ranges, mapping, folding, searching, appending, window expansion). How a sequence is represented internally never changes a result. An operation is only undefined where the operation itself is (overflow, out-of-range index, uncovered match).",
 ["programs","inputs"],"all expressions of bounded depth over boundary constants of every integer width, all sequence representations and all pattern shapes",
 "Evaluation is a large case analysis per width, representation and wrapper; the tests touch a fraction of the cells.",
 ["src/decoder.rs","src/decoder/value.rs","src/decoder/seq_kind.rs","src/decoder/search.rs","src/loc_decoder.rs"],
 [("evaluation","src/decoder.rs:Expr::eval"),("arithmetic","src/decoder/value.rs:Value::arith, Value::int_rel"),("patterns","src/decoder/value.rs:Value::matches_inner"),("sequences","src/decoder/seq_kind.rs")],
 "values computed for closed and open expressions")

p("C12","Typed numeric expressions never lose or wrap a value",
 "Evaluating a numeric expression over mixed-width signed and unsigned integers yields the exact mathematical result, marked as representable exactly when it fits the result type; an undefined operation is an error. The typed operation and cast functions that generated code calls return the exact result when it fits their result type, hand back the exact out-of-range number otherwise, and report division by zero as not a number. An expression the type inference accepts evaluates consistently with the types it was given. Results never wrap, truncate or change sign silently.",
 ["programs","inputs"],"all numeric expressions of bounded depth over all machine types and boundary constants",
 "Ten representations, automatic width selection, casts and eight operators interact; tests list a few examples of each.",
 ["src/numeric/core.rs","src/numeric/eval.rs","src/numeric/elaborator.rs"],
 [("numeric model","src/numeric/core.rs"),("evaluator","src/numeric/eval.rs"),("inference","src/numeric/elaborator.rs")],
 "evaluation and inference results")

p("C13","Decoded values inhabit the type the library infers",
 "Whenever a format is accepted, every value it can decode has the type the library inferred for it; the unifying type checker accepts what the plain one accepts and infers the same type (up to what either leaves open, and to unions widened by alternatives of another place they are joined with), and ill-typed formats and expressions are refused. Consequently no accepted format can fail at run time with a type confusion.",
 ["programs","inputs"],"all formats and expressions up to a depth, including ill-typed ones, crossed with all short inputs",
 "Typing rules exist per construct in two independent checkers; only composed programs expose a rule that is too lax or disagrees with the other checker.",
 ["src/lib.rs","src/typecheck.rs","src/typecheck/base_set.rs","src/typecheck/inference.rs","src/valuetype.rs"],
 [("type inference","src/lib.rs:FormatModule::infer_format_type, Expr::infer_type"),("unification","src/typecheck.rs:TypeChecker")],
 "inferred types compared with decoded values")

p("C14","Canonical prefix codes are built and decoded exactly",
 "For every list of code lengths that forms a valid prefix code, the dynamic code built from it decodes each canonical codeword to its symbol and consumes exactly its length, in both interpreters and in the runtime of generated code alike. Bit strings that begin with no codeword are rejected, lengths that admit no prefix code decode nothing, an optional symbol order is honoured, and the order of symbols with equal length is by symbol value.",
 ["inputs"],"all length lists up to a size with lengths up to a bound, valid, incomplete or over-subscribed, and all bit strings up to a length",
 "Code construction depends on the whole multiset of lengths; tests cover two tables.",
 ["src/decoder.rs","src/prelude.rs","src/loc_decoder.rs"],
 [("code construction","src/decoder.rs:make_huffman_codes"),("generated-code construction","src/prelude.rs:parse_huffman, HuffmanNode")],
 "symbols decoded")

p("C15","Fixed-width and signature reads are exact and byte-order correct",
 "Fixed-width integer reads, arrays of them (plain, strided, capped), scopes, views, signature matching and tag conversion return precisely the values the bytes denote in the stated byte order, consume exactly that many bytes, and fail without touching anything when too few bytes remain, however large the requested count. Every way of looking at an array (by index, by iteration, collected, owned or borrowed, searched) shows the same items. Conversions between a tag's textual and binary forms are inverse to each other.",
 ["inputs","histories"],"all read operations at every offset of buffers covering every length around each width, and all tags over a boundary alphabet",
 "Off-by-one at buffer ends and byte-order swaps need asymmetric values at exact positions.",
 ["src/read.rs","smallsorts/src/tag.rs","smallsorts/src/binary.rs","smallsorts/src/error.rs","src/parser/view.rs"],
 [("cursor reads","src/read.rs:ReadCtxt"),("tags","smallsorts/src/tag.rs")],
 "values and remaining input")

p("C16","Runtime helpers of generated code match the language's operations",
 "The helper functions that generated decoders rely on - window expansion, sub-sequence, duplication, iteration, sorted and unsorted lookup, conversions, folding and flat mapping - return for every argument what the corresponding format-language operation returns, visit elements in order and stop at the first failing step, and never produce a value where that operation has none.",
 ["inputs"],"all argument combinations up to small sizes, including empty and out-of-range ones",
 "They are separate from the interpreter and only exercised through the shipped formats.",
 ["src/prelude.rs","src/decoder.rs","src/decoder/search.rs"],
 [("helpers","src/prelude.rs")],
 "helper results compared with evaluating the expression")

p("C17","Every accepted format terminates on every input",
 "Decoding always terminates: unbounded repetition (Repeat, Repeat1) over something that can succeed without consuming input is refused, by the compiler and by the code generator, so an accepted repetition yields at most one element per byte consumed; only a repetition with its own count or condition may iterate without consuming. A format cannot be defined in terms of itself or of a later one.",
 ["programs","inputs"],"all formats up to a nesting depth that place any construct under unbounded repetition, with all inputs up to a length",
 "A non-terminating pair is a property of the composition of repetition with a construct whose minimum size is misjudged.",
 ["src/decoder.rs","src/format.rs","src/bounds.rs"],
 [("repeat guard","src/decoder.rs:Compiler::compile_format (Repeat, Repeat1)"),("minimum size","src/format.rs:Format::match_bounds")],
 "termination within a step budget linear in the input")

p("C18","No input can crash a shipped decoder",
 "Decoding any byte string with any shipped format ends in a value or an error report, in the interpreter and in the generated decoders: never in a panic, an arithmetic overflow or an endless loop.",
 ["inputs","fault_sequences"],"every truncation and every single-byte substitution from a boundary set of each sample and each minimal file, and every short input",
 "Crashes hide behind specific field values at specific offsets that intact samples never contain.",
 ["doodle-formats/src/format.rs","generated/gencode.rs","src/decoder.rs","src/prelude.rs","src/parser/mod.rs"],
 [("formats","doodle-formats/src/format/*.rs"),("generated","generated/gencode.rs")],
 "absence of panics")

p("C19","Every constructor of the helper library builds what it documents",
 "For all arguments in its documented domain, each constructor of the helper library (doodle::helper, and the calls of named formats with value and view arguments) builds a format or expression with exactly its documented meaning. Formats built by it accept exactly the documented inputs, consume exactly the documented bytes and yield the documented value: packed-bit records split a byte or word from the most significant bit down with each field at its width, flags as booleans and must-be-zero segments reported as soft errors; record constructors keep, capture or discard each field by its label, fuse records in order and remap exactly the named field; between/within/nonzero/equality conditions hold exactly on the documented range, strict ones rejecting and expect-level ones only recording; alignment, relative offset, exclusion, optional, string, fixed-width and signed readers behave as named. Expressions built by it - checked and unchecked indexing, last element, any, maximum, option and fold helpers, field subsets, balanced merging - evaluate to the documented value, and have none only where the documentation says so.",
 ["programs","inputs"],"all constructor arguments within small bounds (every bit-field layout, every field-label kind list, every range over boundary values, every short sequence) crossed with all short inputs",
 "Most constructors are exercised by tests only through one or two shipped formats with fixed arguments; layouts, label kinds, empty sequences and range ends outside those are never built.",
 ["src/helper.rs","src/format.rs","src/record_fmt.rs","src/lib.rs","src/pattern.rs"],
 [("helper library","src/helper.rs"),("record construction","src/format.rs:Format::__chain_record"),("record fusion","src/record_fmt.rs"),("named formats","src/lib.rs:FormatModule::define_format_args_views")],
 "result of decoding or evaluating what the constructor returned")

with open("/verif/properties.jsonl","w") as f:
    for d in P:
        d["statement"]=d["statement"].strip()
        assert len(d["title"])<=80,d["id"]
        f.write(json.dumps(d)+"\n")

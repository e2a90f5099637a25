HOOKS=dict(guard="--cfg verif_hooks",enable="RUSTFLAGS='--cfg verif_hooks' (check.sh C10 and setup.sh, separate target directory)",source_commits=["00a0b99"])
NA={}
c("C01","exhaustive enumeration of formats x inputs, real interpreter vs reference semantics",
  "every format of nesting level <= 2 over 16 atoms, every input over a small alphabet up to a length; each execution of the real decoder is compared with the reference model")
c("C03","exhaustive enumeration of formats x inputs, located vs plain decoder with span oracle",
  "every compiling format of nesting level <= 2, every input over a small alphabet up to a length")
c("C02","exhaustive enumeration of regular formats x inputs, real compiler+decoder vs language membership with derivation counting",
  "every regular format of nesting level <= 3 within the stated shape, every choice of three, every choice and repetition through 25 byte-transparent constructs, every input over {0,1,2} up to a length; whole-input acceptance, yield, ambiguity and refusal all decided against an independent recogniser")
c("C09","explicit-state exploration of byte sets (complete over 8 boundary bytes and complements) plus all pairs of a structured family, against a 256-entry membership model",
  "complete state space over eight word-boundary bytes under every operation, every range, all pairs of structured sets")
c("C05","explicit-state model checking of a window/bit/backtracking model with every edge replayed on the real Parser, plus unmerged exhaustive operation sequences",
  "all operation sequences to depth 5 (6 thorough) and every edge of the merged model-state graph; each replayed on a fresh real Parser and compared observably")
c("C11","exhaustive enumeration of operators x complete bounded argument space x value representations, both real evaluators vs reference evaluator",
  "every operator instance of the expression language on every argument tuple of the bounded value space in every representation, plus all two-level closed compositions over a spread of values")
c("C12","exhaustive enumeration of operators x machine types x boundary values, real evaluator, elaborator and all back-end functions vs exact integer arithmetic",
  "every back-end function on all boundary argument pairs (8-bit ones completely), every numeric expression of depth <= 2 over all machine types and boundary constants, evaluated and elaborated by the real code")
c("C14","exhaustive enumeration of code-length lists x bit strings, three real decoders vs canonical-code oracle",
  "every length list within the size bound (valid, incomplete, over-subscribed, empty), every bit string up to a length, one and two codewords; every symbol order up to five symbols")
c("C15","explicit-state exploration of the complete (window x position) graph of the reading contexts, every edge replayed on the real code; exhaustive tags, searches, fixed-width and signature formats",
  "all reachable states of each reading context over 20 buffers (38 thorough) under every read, array, scope and offset operation incl. overflowing sizes; all tags over boundary bytes; every fixed-width format at every length")
c("C16","exhaustive enumeration of helper arguments, real helper vs independent definition and vs the interpreter's evaluation of the corresponding expression",
  "every helper on a complete bounded argument space (windows up to length 5/8 with every start and length, all searches over <=5/7 items, all 8-bit and boundary wider integers, all folds over <=4/6 items incl. failing steps)")
c("C06","exhaustive single-fault enumeration over 72 seed files of all shipped formats, interpreted definition vs committed generated decoder",
  "every truncation, deletion, insertion, byte substitution (all 256 values in small files, boundary values in larger ones), field fill and field increment of every seed file, alone and through the choice of all formats, plus every short string over 18 significant bytes through every format; verdict and full decoded value compared")
c("C07","exhaustive enumeration of block/token sequences, bit flips, truncations and all 2-byte streams, both real decoders vs independent RFC 1951 inflater",
  "every token list up to a length in every block kind and header style, every sequence of three blocks from a pool, every length/distance code at its range ends, every bit flip and truncation of a family of streams, and every two-byte stream")
c("C08","exhaustive enumeration of every Unicode scalar value and of byte strings, both real decoders vs the UTF-8 definition",
  "every code point incl. surrogates and overlong spellings, every string of 1-2 bytes, all pairs of bytes with a boundary third, all boundary strings of 4 bytes, and damaged sequences")
c("C18","exhaustive single-fault enumeration over 72 seed files of all shipped formats with a crash and hang monitor on three decoders",
  "the C06 space with a panic and 30 s hang monitor on the interpreter, the located interpreter and the generated decoder; listed findings hold only where the generated decoder fails for the same arithmetic/match reason")
c("C10","exhaustive enumeration of intervals, expressions x assignments and formats x inputs, real static bounds (read through a hook) vs every execution",
  "all intervals over a small range and over word-boundary values under every operation; every integer expression of depth <= 2 over boundary constants, interval-valued subterms and unknowns with every assignment; every format of nesting level <= 2 with every short input, compiler and code-generator bounds vs bytes consumed and furthest byte read")
c("C17","exhaustive enumeration of formats under unbounded repetition x inputs, refusal vs observed empty executions, progress and CPU-time monitor on accepted ones",
  "every format of nesting level <= 2 and every wrapper chain of depth 3 under Repeat/Repeat1 (also inside Bits and a choice), an empty success searched for over all short inputs in both the real decoder and the reference semantics; accepted repetitions run on long inputs; all nestings of 9 repetition/choice steps to depth 4 (5); self-reference refused")
c("C04","exhaustive enumeration of formats and operator compositions x inputs, freshly generated and compiled decoder vs interpreter",
  "every format constructor around and between 16 atoms, every wrapper chain of depth 2 (3 thorough), every expression operator and two-operator composition over parsed arguments, and the shipped formats; each is generated by the current generator, compiled by rustc and run on every input of the bounded space; verdict, value and position compared with the interpreter; 46 formats without compilable output are listed as findings")
c("C13","exhaustive enumeration of formats, operators and expression positions with every argument type x inputs, both real type checkers vs types by construction and vs every decoded value",
  "every format of nesting level <= 2 and every chain of 3 (4) wrappers with the type it has by construction; every operator with each argument in turn of every type; every expression position of every format context; every shipped definition, its seed files and their damaged variants")
c("C19","exhaustive enumeration of constructor arguments x inputs, real constructors through type checker, compiler, both interpreters and the evaluator vs independently written meanings",
  "every constructor of the helper library: every layout of 8 bits and every layout of 16 bits into at most four fields, every list of up to four field-label kinds, all ranges over boundary values, all sequences over four values up to length 4 (5), alignments, offsets, options and named-format calls; inputs all strings over {00,01,02,ff} up to length 5 (6), every byte, or boundary words; verdict, value, position and soft errors compared")

NOTES = ("Static analysis of the type-checked program: driver/ is a rustc_private driver that dumps the MIR of /repo's current tree with resolved callees for both CPU "
         "configurations of the project's CI; lib/absint.py is an interprocedural conditional value analysis over it; rules/ holds one rule "
         "set per property. Nothing of nd is executed. known_findings.json lists the defects found; selftest/ holds the edits the rules are tested with.")

IP = "interprocedural value and path analysis over rustc MIR (helpers inlined)"

PROPS = [
 dict(id="C01", title="An in-place edit replaces the file only after complete, error-free output",
  statement="With --inplace, a file keeps its original bytes until the whole output of its edit has been written, without any error, to a temporary file named by appending a suffix to that file's own path; only then is the temporary renamed over exactly that file. If opening, reading, processing or writing fails at any point, the rename does not happen. Nothing but this step, --output files and nd's own unnamed cache ever creates, truncates, renames or removes a file.",
  over=["inputs", "fault_sequences", "crash_points"], quant="every list of input files, every pipeline, every point at which an operation may fail or the process may die",
  why="The tests drive the stream objects in memory; no test runs the in-place path of main at all, let alone with a failure in the middle.",
  files=["src/main.rs", "src/drain/scatter.rs", "src/byte/tee.rs"],
  mech=[("write to FILE.tmp, then rename", "src/main.rs main_impl"), ("loop until end of stream", "src/main.rs consume_stream")],
  technique=IP + "; must-pass-through and who-may-call rules", note="All paths of main with helpers inlined; the rename's operands are compared as values. Assumes std::fs::rename is atomic; durability after power loss (fsync) is not claimed."),
 dict(id="C02", title="The output loop delivers every byte of the pipeline exactly once, in order",
  statement="Whatever the pipeline produces reaches the destination (standard output, the pager, or the in-place temporary) completely, in order and exactly once: every chunk offered is written in full before the next one is requested, and precisely the written bytes are marked as consumed. nd stops only when the pipeline reports its end and no bytes are left.",
  over=["inputs", "schedules"], quant="every pipeline output, every way it is cut into chunks, every destination",
  why="Tests never run main's output loop; chunk boundaries and destinations are fixed in the sampled streams.",
  files=["src/main.rs"], mech=[("fill_buf / write_all / consume loop", "src/main.rs consume_stream")],
  technique=IP, note="Decides the loop that delivers the output; what the pipeline's stages offer is the subject of other properties."),
 dict(id="C03", title="No I/O or processing failure is swallowed",
  statement="Whenever reading an input, writing an output, opening or renaming a file, starting or feeding an external command, or processing the data fails, the failure is passed on until nd ends with an error; it is never taken for end of input, an empty result, or success. The only failures treated as harmless are a closed pipe at the command of --patch-back or at nd's own output, and an unset PAGER or the pager's exit status.",
  over=["fault_sequences", "inputs"], quant="every operation that can fail, at every call site, in every order of failures",
  why="The tests read from in-memory sources that never fail; no test injects an I/O error.",
  files=["src/byte", "src/segment", "src/drain", "src/main.rs", "src/pipeline.rs", "src/eval.rs", "src/text"],
  mech=[("`?` propagation of anyhow/io results", "all stream implementations"), ("error kept in the cache and reported by the reader", "src/byte/tee.rs"), ("thread result joined", "src/drain/patch.rs CachedStream")],
  technique="use-flow and failing-branch analysis of every Result in rustc MIR", note="Every call that returns an I/O or nd error in the program, both CPU configurations. The exemptions are listed in the rule with their reasons."),
 dict(id="C04", title="A failing operation or malformed input is an error, never a panic",
  statement="A failure to open, read, write, rename or start something, a malformed number, pattern, expression, format, slice specification or input record, and a missing piece of user-supplied text are reported as an error. No such failure is turned into a panic, abort or index out of bounds by assuming that the operation succeeded.",
  over=["inputs", "fault_sequences"], quant="every operation on data or resources that can fail, at every call site",
  why="Every unwrap on a fallible operation is a panic only for the input or fault that makes it fail; tests use well-formed input and resources that never fail.",
  files=["src"], mech=[("unwrap/expect sites and failing branches", "whole program")],
  technique="use-flow of every unwrap/expect and failing branch in rustc MIR, with path conditions", note="Arithmetic overflow and slice indexing by computed lengths are not decided here (runtime quantities)."),
 dict(id="C05", title="The exit status and stderr tell a failure from a success",
  statement="When anything fails, nd ends with exit status 1 after printing an error message with every cause of the failure on stderr. When nothing fails it prints no error and ends with 0. A failure whose root cause is a closed pipe (the reader of nd's output went away) ends silently with 0, and no other failure does.",
  over=["fault_sequences", "inputs"], quant="every outcome of the program's work: success, a closed pipe, any other I/O error, any other error",
  why="No test runs main, and which failure occurs, with which chain of causes, depends on the system.",
  files=["src/main.rs"], mech=[("error report and exit status", "src/main.rs main"), ("is_broken_pipe on the root cause", "src/main.rs")],
  technique=IP + ", one run per outcome", note="Decides what main does with the outcome of the work; that failures reach main is C03."),
 dict(id="C06", title="The standard input is read by at most one reader",
  statement="Among the inputs, --patch and --guide, at most one may be the standard input, given as '-' or /dev/stdin or taken by default because no input is given; a command line with more is refused before any file is opened, created or written and before any command is started. An in-place run never reads or edits the standard input in place of a file. A command line with at most one such use is not refused for it.",
  over=["inputs", "configurations"], quant="every list of inputs and every choice of --patch and --guide arguments, with and without --inplace",
  why="Tests do not run the command line; the bad combinations are in the product of three independent lists.",
  files=["src/main.rs", "src/pipeline.rs"], mech=[("check of the stdin uses before the work starts", "src/main.rs"), ("'-' opens /dev/stdin", "src/pipeline.rs")],
  technique=IP + ", one run per combination of stdin uses", note="Other names of the standard input (/proc/self/fd/0, links) are not recognised by nd and not claimed."),
 dict(id="C07", title="At most one input, slicing and output mode is accepted, with fixed defaults",
  statement="Of --cat, --zip and --inplace at most one may be given, of --width, --find, --walk, --slice and --guide at most one, and of --output and --patch-back at most one: two of a group are refused with an error, and any choice with at most one of each group is accepted. Without a choice, nd concatenates its inputs without alignment, slices every 16 bytes, and writes to the standard output.",
  over=["configurations"], quant="every combination of the options of the three groups",
  why="Tests construct a few option sets; which pair of a group slips through depends on the pair.",
  files=["src/pipeline.rs", "src/main.rs"], mech=[("choice of input, slicer and output", "src/pipeline.rs Pipeline::from_args"), ("clap groups", "src/pipeline.rs PipelineArgs")],
  technique=IP + ", one run per set of options (presence fixed, values symbolic)", note="Every pair of every group, every single option, every cross-group combination and none."),
 dict(id="C08", title="Every option adds exactly its own step, in the documented order",
  statement="Each option of the pipeline (--cut, --pad, --patch, the slicing mode, --regex, --invert, --extend, --merge, --lines, --output, --patch-back, and the input modes) adds exactly its own step, working with that option's own unchanged argument on the result of the step before; an option not given adds none. The steps run in the documented order cut, pad, patch, slicing, regex, invert, extend, merge, lines, output, whatever the order on the command line.",
  over=["configurations", "inputs"], quant="every combination of options, with every argument",
  why="The order only shows when two options that do not commute are combined; tests run single streams or fixed short pipelines.",
  files=["src/pipeline.rs"], mech=[("stage list", "src/pipeline.rs Pipeline::from_args"), ("stage construction", "src/pipeline.rs Pipeline::spawn_stream")],
  technique=IP + "; list of stages computed per option set, and constructor/argument/predecessor matching for every list entry", note="What a step does with its argument is the subject of other properties."),
 dict(id="C09", title="Every byte nd itself inserts is the --filler value",
  statement="The bytes nd adds to the data on its own account (the alignment of --cat N and --zip N, the gaps between the records of a text input, --pad) are the --filler value, and zero when none is given. A --filler outside 0..255 is refused with an error. Alignment is applied to the decoded bytes, never to the text of a text-formatted input.",
  over=["configurations", "inputs"], quant="every filler value, every input, every combination of the options that insert bytes",
  why="The bytes only show when the data is cut at a place where filling is needed; tests construct the streams with a filler of their own and never go through the command line.",
  files=["src/pipeline.rs", "src/byte", "src/text/parser.rs"], mech=[("filler passed to every stream that fills", "src/pipeline.rs"), ("extend / resize with the filler", "src/byte/cat.rs, zip.rs, text.rs, cut.rs and src/streambuf.rs")],
  technique=IP + "; value flow from the option to every inserted byte", note="That the number of inserted bytes is right is arithmetic on run-time quantities and not decided here."),
 dict(id="C10", title="Formats mean what is documented, and what is not supported is refused",
  statement="Every format signature means the documented offset, length and body columns; the default is binary for the input and hexadecimal records for the output (binary when what is written goes back into a file), and --patch and --guide files are always hexadecimal records. The chosen format is the one used by the parser of the inputs and the formatter of the output. A format that cannot be parsed or written is refused with an error before anything is processed, and no format makes nd abort.",
  over=["configurations"], quant="every format signature, for input and output, with every mode that has a default format of its own",
  why="The tests build parsers and formatters for a handful of formats directly and never through the command line; most signatures are never tried.",
  files=["src/text", "src/pipeline.rs"], mech=[("signature parser", "src/text/mod.rs InoutFormat::from_signature"), ("parser/formatter selected by format", "src/text/parser.rs, src/text/formatter.rs"), ("defaults and refusals", "src/pipeline.rs Pipeline::from_args")],
  technique="constant propagation over rustc MIR: every format is propagated through parser, pipeline construction and stream construction", note="The format of the bytes within a column (digits, separators) is not decided here."),
 dict(id="C11", title="--output writes every slice once, whole, to the file its template names",
  statement="With --output every slice is written exactly once, completely and in order, to the file named by rendering the template for this slice, where n is the offset of the slice on the stream and l its index from 0, however the stream is cut into blocks. A file is created or emptied when the first slice goes to it, and every later slice of the run is appended. An empty name or '-' means the standard output; otherwise nothing is written there.",
  over=["inputs", "schedules", "configurations"], quant="every template, every list of slices, every way the stream is cut into blocks",
  why="The tests write to /dev/null and to one temporary file with one block; rendering, appending and counting across blocks are marked TODO in them.",
  files=["src/drain/scatter.rs", "src/template.rs"], mech=[("file per slice", "src/drain/scatter.rs ScatterContext::dump_segment"), ("running offset and index", "src/drain/scatter.rs ScatterDrain"), ("rendering", "src/template.rs Template::render")],
  technique=IP + "; running totals recognised as loop/field accumulations, typestate of the file builder per membership case", note="The parsing of the template's text (a regular expression) and the number formats are not decided."),
 dict(id="C12", title="Operators in expressions compute what they compute in C",
  statement="In every expression the user gives, + - * / % & | ^ << >> and the comparisons compute on 64-bit signed values what they compute in C, and a negative shift count shifts the other way. A division by zero and an unrepresentable quotient are errors, not an abort. Rewriting an expression while it is parsed (moving signs into operators, exchanging operands, dropping neutral operands, folding constants) does not change its value.",
  over=["inputs"], quant="every operator, every pair of operand values, every sign in front of either operand",
  why="The tests evaluate a sample of expressions; a wrong table entry for one operator shows only for the combination of operator, sign and operand that uses it.",
  files=["src/eval.rs"], mech=[("operator application", "src/eval.rs, functions applying a char operator"), ("sign/operator rewriting tables", "src/eval.rs")],
  technique="constant propagation of every operator over rustc MIR, results compared as polynomials modulo 2^64; rewriting tables checked entry by entry against algebraic identities", note="The tables and the operator application are decided; that the rewriting procedure applies them at the right nodes is a property of a tree rewriting loop and not decided."),
 dict(id="C13", title="Operators bind as in C and group to the left",
  statement="In expressions the binary operators have C's precedence (multiplicative over additive over shifts over relational over equality over & over ^ over |), operators of equal precedence group to the left, and a prefix sign binds tighter than any binary operator.",
  over=["inputs"], quant="every pair of operators",
  why="There are hundreds of pairs of operators; tests evaluate a few.",
  files=["src/eval.rs"], mech=[("precedence comparison", "src/eval.rs latter_precedes")],
  technique="constant propagation of every pair of operators over rustc MIR", note="The position of the power operator among the others is fixed by the repository's own tests and not claimed."),
 dict(id="C14", title="Numbers are read in the documented bases and units, or refused",
  statement="A number is read in base 2, 8, 10 or 16 according to its 0b, 0o (or 0), 0d or 0x prefix (either case), else as decimal, and multiplied by the power of 1000 (k, M, G, T, E) or 1024 (with i) its suffix stands for. A digit that does not exist in the base, a missing digit, a value that does not fit into 64 bits and anything else after the number are refused with an error, as is a negative number where a size is expected.",
  over=["inputs"], quant="every prefix, every digit in every base, every suffix, every value near the limits",
  why="Tests parse a few dozen literals; bases, digits, cases and suffixes multiply.",
  files=["src/eval.rs"], mech=[("number parser", "src/eval.rs parse_val, parse_prefix, parse_char"), ("sizes", "src/eval.rs parse_usize")],
  technique="constant propagation of constant texts through the number parser over rustc MIR", note="Every base with every digit, every suffix, limits of every base; the loop over the digits is followed for constant texts."),
 dict(id="C15", title="--walk cuts the stream at the lengths its expressions give, to the last byte",
  statement="With --walk the slices follow each other without gap or overlap from the start of the stream, their lengths being the values of the expressions in the given order, repeated; the last ones are clipped at the end of the stream, and none of it is left out. In the expressions b[i], h[i], i[i] and l[i] are the i-th signed little-endian 1-, 2-, 4- and 8-byte values counted from the start of the current chunk; no byte behind the end of the stream is used. A value that is not positive and a negative index are errors.",
  over=["inputs", "schedules"], quant="every list of expressions, every stream, every way it arrives",
  why="What an expression reads depends on the data, the width, the index and the position of the chunk; tests use short constant streams.",
  files=["src/segment/walk.rs"], mech=[("element lookup", "src/segment/walk.rs SpanFetcher::get_array_element"), ("chunk loop", "src/segment/walk.rs WalkSlicer::fill_segment_buf")],
  technique=IP + "; element loads normalised to (width, sign, offset polynomial), conditional reachability for the end of the stream", note="How an expression is evaluated is C12-C14; that the slicer makes progress for every chunk size is not decided."),
 dict(id="C16", title="Moving on to the next block drops exactly the slices that were taken",
  statement="Slices are handed on in windows over the stream. When n bytes of a window are consumed, every slicing step (all but the fixed-width one) and every step on slices consumes just as many bytes from the step before, drops exactly the slices that start before that point, moves the others back by it together with everything else it remembers about the window, and answers the two counts. What takes the slices (printing, --output, --patch-back) takes every slice of a window exactly once, with the offset of the bytes consumed before, consumes what the window allows, and stops only when the source has ended with nothing left.",
  over=["inputs", "schedules", "configurations"], quant="every stream, every way it is cut into windows, every combination of slicing steps",
  why="A wrong count or shift shows only when some slices of a window stay behind, which needs data beyond the 2 MB window and slices that straddle it; the tests' streams are far smaller, and mock drivers consume in one way.",
  files=["src/segment", "src/drain"], mech=[("consume", "src/segment/*.rs, SegmentStream::consume"), ("window cursor", "src/segment/*.rs, fields src_scanned, src_consumed, last_end, acc, pos, scanned"), ("drain loops", "src/drain/scatter.rs, src/drain/patch.rs")],
  technique=IP + "; bookkeeping fields found as the loop-carried state of the filling function, their unit (bytes / source slices / own slices) inferred, each consume checked to shift each of them by the matching count", note="How far a window may be consumed (the look-ahead of --extend, --merge, --invert) and the closed-form counting of the fixed-width slicer are arithmetic on run-time quantities and not decided."),
 dict(id="C17", title="No byte is lost or doubled where the data are cut into blocks",
  statement="Every step on bytes (concatenating, leaving out head and tail, padding, cutting, patching, zipping, reading formatted text, keeping the copy for --patch-back) takes from the step before exactly the bytes it has handed on, replaced or left out on purpose, once and in order, wherever blocks begin and end. What it hands out next starts right behind what was consumed, and it is at least as long as asked for unless the data end before. The end is announced only when the step before has ended and nothing is left to hand on.",
  over=["inputs", "schedules", "configurations"], quant="every stream, every way it arrives, every amount consumed and asked for",
  why="Whether bytes are doubled or lost depends on the sizes of reads, requests and consumed parts relative to each other and to the 2 MB block; tests drive short streams with a few patterns of requests.",
  files=["src/streambuf.rs", "src/byte", "src/filluninit.rs"], mech=[("shared buffer", "src/streambuf.rs StreamBuf"), ("concatenation", "src/byte/cat.rs CatStream"), ("clipping", "src/byte/clip.rs ClipStream"), ("padding", "src/byte/zero.rs"), ("copy", "src/byte/tee.rs")],
  technique=IP + ", once per case of the order of the numbers involved (position, length, request, read, consumed), vectors' lengths followed through their operations; effect order for what is consumed and copied", note="Numbers enter as representatives of every order type that the comparisons in the code distinguish; what --cut, --patch and --zip copy is claimed separately."),
 dict(id="C18", title="S..E selects the bytes, slices and lines from S up to E, counted as documented",
  statement="In --cut, --slice and --lines, S..E covers the elements from S up to but not including E, where s is the start, e the end, numbers count from the start, and an empty S or E stands for the start or the end; bounds beyond the stream are clipped. --cut and --lines give the union of their ranges once and in order; --slice gives one slice for each different non-empty range, in order of their starts. What is selected depends on the positions alone, not on how the stream is cut into blocks, and bounds that are not of these forms are refused.",
  over=["inputs", "schedules"], quant="every list of ranges, every length of the stream, every way it arrives",
  why="Ranges anchored at the end need a length that is known only in the last block, and what is held back for them is a sum of offsets; the tests use short streams that arrive in one block.",
  files=["src/mapper.rs", "src/byte/cut.rs", "src/segment/range.rs", "src/segment/filter.rs"], mech=[("meaning of a range, look-ahead", "src/mapper.rs RangeMapper"), ("bytes", "src/byte/cut.rs CutStream"), ("slices", "src/segment/range.rs RangeSlicer"), ("lines", "src/segment/filter.rs FilterStream")],
  technique="interprocedural value analysis over rustc MIR, once per case: every range anchor with representatives of every order of offsets and length, and one turn of each selecting loop per order type of the numbers it compares", note="The evaluation of the text of S and E is C12-C14. Representatives stand for every order the code's comparisons distinguish; sums near 2^63 are not covered."),
 dict(id="C19", title="--patch replaces each record's span by its bytes and copies everything else once",
  statement="With --patch, the bytes from a record's offset on, as many as its length says, are replaced by the record's bytes, whatever their number, and all other bytes are copied once and in order, however the stream is cut into blocks. A record that reaches beyond the end of the stream replaces what there is, records behind the end change nothing, and a record that overlaps the one before or goes back is refused with an error.",
  over=["inputs", "schedules"], quant="every list of records, every stream, every way it is cut into blocks",
  why="A record may begin, end or lie entirely in a block, or span several, and the next one may follow at once or lie far behind; the tests patch short streams that arrive in one piece.",
  files=["src/byte/patch.rs"], mech=[("records applied to a block", "src/byte/patch.rs PatchStream"), ("next record", "src/byte/patch.rs PatchFeeder")],
  technique="interprocedural value analysis over rustc MIR of one turn of the patching loop, once per case: length of the block, progress in it, where the next record begins and ends, where the one after it begins", note="Representatives stand for every order the code's comparisons distinguish; loop variables are followed as linear functions of the progress. How a record is read from its text is C09, offsets near 2^64 are not covered."),
 dict(id="C20", title="--zip N takes N bytes of every input in turn, until the shortest one ends",
  statement="With --zip N the output is the first N bytes of each input in the order they are given, then the next N of each, and so on: every word of every input once, for every word size and number of inputs, whatever the lengths in which the inputs hand out their bytes. The stream ends at the last whole word of the shortest input.",
  over=["inputs", "configurations", "schedules"], quant="every word size, every number of inputs, every length of each of them and of the parts they arrive in",
  why="There is a function of its own for each of nine word sizes, chosen from a table, and raw pointers are moved along; the tests zip inputs of equal length that arrive in one block.",
  files=["src/byte/zip.rs"], mech=[("choice by the word size, gathering of words, end of the stream", "src/byte/zip.rs Zipper"), ("buffer", "src/byte/zip.rs ZipStream")],
  technique="interprocedural value analysis over rustc MIR for each word size 1 to 40 and five larger ones: the chosen function's reads and writes as affine functions of word and input, and the loop over the inputs as an automaton over what it keeps", note="The number of inputs is a representative (3); word sizes above 40 are represented by 48, 64, 100, 255 and 1000. Loops written in a form that is not followed are left undecided (counted in the evidence)."),
 dict(id="C21", title="--find and --regex report every match, each once, wherever blocks meet",
  statement="With --find the slices are the places where the given bytes (at most 64) occur, found from the start of the stream to its end so that they do not overlap, each once, as if the stream were searched in one piece. With --regex each slice of the step before is searched once and on its own, and every match becomes a slice at its place on the stream; the slices are handed on in the order of their starts. An array of more than 64 bytes is refused, and an empty one matches nothing.",
  over=["inputs", "schedules"], quant="every stream and pattern, every length of the blocks in which the stream arrives and is consumed",
  why="A block is at least 2 MiB, so a match across or near the edge of a block needs an input no unit test has; whether one is missed, doubled or overlapped depends on where the previous search ended.",
  files=["src/segment/exact.rs", "src/segment/regex.rs"], mech=[("search for bytes, where it goes on in the next block", "src/segment/exact.rs ExactMatchSlicer"), ("search in slices, order, what is handed out before the next block", "src/segment/regex.rs RegexSlicer")],
  technique=IP + ": which range is searched, what each find becomes, and - by case analysis over the numbers involved (end reached, bytes read, bytes searched, length of the pattern, end of the last match) - where the search goes on, what may be consumed, and how many matches are handed out", note="What a match is, is left to the memchr and regex crates; that consuming drops exactly the slices taken is C16. Hand-written search loops are left undecided (counted in the evidence)."),
 dict(id="C22", title="--guide turns each record into its slice, whole, in order, wherever blocks meet",
  statement="With --guide each record of the file becomes one slice, at the offset and with the length it gives in hexadecimal, in the order of the records; at the end of the stream a slice is cut, and one that begins there or later is dropped. A slice whose bytes have not all been read is not handed out before they are, and nothing of it is consumed or lost until then. A record whose offset is smaller than that of the record before is refused.",
  over=["inputs", "schedules"], quant="every stream, every file of records, every length of the blocks in which the stream arrives and is consumed",
  why="Whether a record is complete depends on where the block ends, that is, on offsets beyond 2 MiB no unit test has; the order of records is checked across blocks, and the number types allow for offsets and lengths no test tries.",
  files=["src/segment/guided.rs"], mech=[("record to slice, what is kept back, what may be consumed", "src/segment/guided.rs GuidedSlicer"), ("reading of records", "src/text/parser/mod.rs TextParser::read_line")],
  technique=IP + ": the turn of the loop for one record, by case analysis over the numbers involved (offset and length of the record, offset of the one before, bytes consumed and read, end reached); and what is done with the slice kept back, with none left, and on consuming", note="How a line is read is C04 and C19's concern; that consuming drops exactly the slices taken is C16."),
 dict(id="C23", title="--extend, --invert and --merge make all their slices whole across blocks",
  statement="--extend applies every expression to every slice of the step before, and --invert to every span that no slice covers, between slices and at both ends of the stream; of what comes out, the part inside the stream is a slice unless it is empty, and slices come sorted by start, then by end. --merge N joins a slice to the one before if it starts at most N bytes behind its end, keeping the larger end, and keeps all others apart. No slice is missed, doubled or handed out before its last byte was read, and which come out does not depend on where the blocks meet.",
  over=["inputs", "schedules"], quant="every stream, every set of slices and of expressions, every N, every length of the blocks in which the stream arrives and is consumed",
  why="Expressions reach any distance ahead and back, so which slices must wait depends on offsets beyond 2 MiB; the unit tests use short streams and few expressions, and never both.",
  files=["src/segment/extend.rs", "src/segment/bridge.rs", "src/segment/merge.rs", "src/mapper.rs"], mech=[("--extend", "src/segment/extend.rs ExtendStream"), ("--invert", "src/segment/bridge.rs BridgeStream"), ("--merge", "src/segment/merge.rs MergeStream"), ("expressions", "src/mapper.rs SegmentMapper::evaluate")],
  technique=IP + ": the turn of the loop for one slice, by case analysis over the numbers involved (its start and end, the end of the one before, what an expression makes of it, bytes read, end reached); which slices wait, in what order they come, and what may be consumed meanwhile", note="That consuming drops exactly the slices taken is C16; what the arithmetic in an expression gives is C12."),
 dict(id="C24", title="--width cuts at every multiple of N, wherever blocks meet",
  statement="--width N[,S..E] makes one slice of every N bytes of the stream, the last of which may be fewer: the one from S to E, counted as for N whole bytes from where they start, as far as it lies inside the stream, or none if that is empty. The slices come in order, each once and with all its bytes, wherever the blocks of the stream meet and however much of it is consumed at a time. An S..E that is empty on N bytes is refused.",
  over=["inputs", "schedules"], quant="every stream, every N, S and E, every length of the blocks in which the stream arrives and is consumed",
  why="What is held back until the stream goes on, and where the next slice begins once part of the stream was consumed, depends on S, E and N together with the amounts that arrive and are consumed; the unit tests try a few widths on short streams.",
  files=["src/segment/stride.rs", "src/mapper.rs"], mech=[("--width", "src/segment/stride.rs ConstSegments"), ("S..E", "src/segment/stride.rs ConstSlicerParams::from_raw")],
  technique=IP + ": for a set of N, S and E, by case analysis over the numbers the stage keeps: the first slice, the turn of the loop that makes one (from where, up to where, what comes next), which slices are handed out and how far may be consumed, and where the next one begins after consuming", note="The cases are a grid of widths, of states and of amounts (some 17,000 in all), chosen at and around the borders; each is decided for the code as a whole, but numbers between them are not. That consuming drops exactly the slices taken is C16."),
 dict(id="C25", title="Text records are read whole, digit for digit, wherever blocks meet",
  statement="A record gives its offset and length as the numbers of its first two columns and its bytes as the two-digit columns up to the second '|' or the end of the line, in order and each once, however long the record is and wherever the blocks of the input meet; the next record begins right behind the end of the line. A digit, in either case, has its value, and a number ends at a blank. Anything else in place of a digit or of the separators between columns is refused, not taken for data.",
  over=["inputs", "schedules"], quant="every record, of any length, and every way the text is divided into blocks",
  why="Where a record is cut by the end of a block, by the width the digit routines work on, or by the end of the input depends on its length and on the blocks; the unit tests read short records from whole blocks, and try a few characters out of 256.",
  files=["src/text/parser/mod.rs", "src/text/parser/naive.rs", "src/text/parser/x86_64.rs"], mech=[("record", "src/text/parser/mod.rs TextParser::read_line"), ("record, next block", "src/text/parser/mod.rs TextParser::read_line_continued"), ("digits", "src/text/parser/naive.rs parse_hex_single_naive, parse_hex_body_naive, parse_dec_single; src/text/parser/x86_64.rs")],
  technique=IP + ": the reader turn by turn of its loops for a set of texts cut at and around every border (which part each digit routine is given, which bytes are kept, how much is consumed, what goes on in the next block), and one turn of each digit routine for every byte there is, in every place of a column", note="The texts are some 60 shapes of records at and around the borders, and for the AVX2 routines, whose vectors are followed as 16 bytes, the bytes and places around which their tables and shifts turn; others are not decided one by one. A single digit at the end of a line is ignored, and what follows a blank column in the middle of a line is left open."),
 dict(id="C26", title="Printed as text, a slice is one line: its offset, length, columns and characters",
  statement="Printed as text, every slice becomes exactly one line: its offset and its length as numbers in the base of the format, its bytes in order as two-digit columns, and, behind a '|', the same bytes as characters, with a dot in place of those that are not printable ASCII; where the slice is shorter than the width, columns and characters are filled up with blanks. In the binary format its bytes are printed and nothing else. Nothing is written outside of what is reserved for the line, whatever the length, the offset and the width.",
  over=["inputs", "configurations"], quant="every slice (offset, length and bytes), every width and every output format",
  why="Where the numbers, the columns and the padding stand in a line depends on the length and the width together, and on the size of the vectors; the unit tests print a few lines of a few lengths, and one implementation of the columns per build.",
  files=["src/text/formatter/mod.rs", "src/text/formatter/hex.rs", "src/text/formatter/dec.rs"], mech=[("line", "src/text/formatter/mod.rs format_segments_hhh, format_segments_ddh, format_segments_binary"), ("formats", "src/text/formatter/mod.rs TextFormatter::new"), ("columns", "src/text/formatter/hex.rs format_hex_single, format_hex_body, format_mosaic; dec.rs format_dec_single")],
  technique=IP + ": each printing function with numbers for offset, slice and width; what every write of it puts where, in the order of the program and turn by turn of its loops, against the line that is wanted; the same for each routine for the columns, vector instructions being followed as 16 or 32 bytes, for every byte there is", note="About 140 combinations of length, width and offset around every border (lengths from 0 to 2^24); lines longer than 6000 characters are compared around the borders and in samples. Offsets of 2^48 and more are cut to 12 digits. The routines of the NEON build are not analysed."),
 dict(id="C27", title="Slices are printed once each, in order, under their own offset and number",
  statement="However the stream is divided into blocks, every slice that reaches the end of the pipeline is printed once, in order: slices that stay in the window when a block is consumed are not printed again, and none is passed over. It is printed at the offset in the stream where it begins, and where the name of the output file is made of {n} and {l}, at that offset and under its number among all slices. What is printed for a file or a command is written out completely, once, before the buffer is used again.",
  over=["inputs", "schedules"], quant="every sequence of blocks, windows of slices, and amounts consumed",
  why="The offset and the number of the first new slice depend on every block before; the unit tests see a stream in a few blocks and compare the text as a whole.",
  files=["src/drain/scatter.rs", "src/drain/patch.rs"], mech=[("output", "src/drain/scatter.rs ScatterDrain::fill_buf_impl_through, fill_buf_impl_scatter"), ("to a command", "src/drain/patch.rs PatchDrain::new, the feeding thread")],
  technique=IP + ": one turn of every loop that prints slices, with numbers for the window, for what is consumed, and for what the loop remembers; a typestate of the buffer (printed, written out, empty) over all paths", note="One turn with numbers in general position stands for all turns. That the source keeps unconsumed slices at the head of its window is the business of C16."),

 dict(id="C28", title="A dump applied to the file it was made from gives the file back",
  statement="For every input, printing it as text and reading the print back, as an input or as a patch to the same file, gives the same bytes. The same holds for every set of slices that do not overlap.",
  over=["inputs"], quant="all inputs and slices",
  why="It relates the output of one run to the input of another, over every length and offset.",
  files=["src/text/formatter/mod.rs", "src/text/parser/mod.rs", "src/byte/patch.rs"], mech=[("print", "src/text/formatter"), ("read", "src/text/parser")],
  na="it equates the composition of two loops over unbounded data with the identity; no dataflow abstraction in reach relates the bytes of a whole file across printer, reader and patcher. Its halves are decided locally: C26 and C27 (what is printed), C25 (what is read), C19 (what a patch does)."),
 dict(id="C29", title="Memory does not grow with the length of the input",
  statement="A pipeline that does not ask for the end of its input (no range counted from the end, no --patch-back) processes an input of any length in memory that is bounded by the block size, the sizes of the slices and the number of inputs.",
  over=["inputs"], quant="all inputs and pipelines",
  why="The bound is over the whole run and every length of input.",
  files=["src/streambuf.rs", "src/segment/mod.rs"], mech=[("buffers", "src/streambuf.rs StreamBuf"), ("windows", "src/segment")],
  na="the sizes of the buffers depend on how much every stage consumes at every turn, which is a quantity of the run: it needs an amortised bound over all turns of all stages together, and some stages legitimately hold back without bound (a slice that never ends). That every stage goes on consuming is decided by C16 and C17 per stage."),
]

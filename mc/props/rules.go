package props

// rules says how the cases of a property are made, and what is assumed.
var rules = map[string]struct {
	rule   string
	assume []string
}{
	"C01": {"A case is one message value of one message type. Families: every field shape (kind x singular/option/pointer/repeated/map) at field numbers of every tag size with every boundary value of its kind; every ordered pair and core triple of shapes; nesting chains through message, repeated and map fields with payloads that sweep the length-prefix boundaries; all trees of recursive types up to a node count; written types (struct layouts, named types, enums, hidden fields) with every pair of fields; wide messages; numbers of elements and lengths around the powers of two; all histories of four calls (Size, Marshal, Marshal of another message, change of the message) on one message. A state is a (type, canonical encoding) not seen before; a transition is a call of the code under test; a trace is a case on which all calls agreed with the reference model.",
		[]string{"values outside the boundary alphabets behave like one of the alphabet values of the same branch", "the reference model (mc/model), itself compared with google.golang.org/protobuf in C02 and C05"}},
	"C02": {"The cases of C01; the bytes are compared with a reference encoder (map entries in any order) and decoded with google.golang.org/protobuf dynamic messages.",
		[]string{"values outside the boundary alphabets behave like one of the alphabet values of the same branch"}},
	"C03": {"The cases of C01; Size before and after Marshal against the length of the output, and the message before against after.",
		[]string{"values outside the boundary alphabets behave like one of the alphabet values of the same branch"}},
	"C04": {"A case is one input for one message type, decoded with the input ending at an inaccessible page, from a buffer with poisoned spare capacity, into a message with guard fields; inputs are those of C05 plus hostile lengths, long inputs and deep nesting. Allocation is bounded by a multiple of the input length.",
		[]string{"nesting beyond the depths tried (known finding at 4,000,000 levels)", "out-of-bounds reads that stay inside the input's own pages below its start are seen only by their effect on the result"}},
	"C05": {"A case is one input for one message type: all sequences up to a depth of record tokens (valid, non-canonical, malformed, unknown) of one or two fields, the same inside nested messages, and all byte strings up to a length (over all bytes, then over reduced alphabets). The expected result comes from a reference decoder, which is compared with google.golang.org/protobuf on each input.",
		[]string{"field number 0 or above 2^29-1 and zigzag32 payloads above 32 bits are left open", "wire type mismatch on a known field and groups are errors here by design (a standard decoder skips them)"}},
	"C06": {"A case is an encoded message with unknown fields inserted at one boundary (all boundaries at all levels, all insertions of an alphabet, pairs of insertions; runs of unknown records and unknown payloads of every length around the powers of two; all numbers up to a bound), or an encoding of a type read by the type with a subset of its fields (all subsets).", nil},
	"C07": {"Breadth-first search over the states of one message object; the state is everything visible plus spare capacity of slices. Transitions: decode of each input of an alphabet (valid, partial, failing) and user mutations (clear, reslice, delete). Each transition is executed on the real object and compared with the reference merge.",
		[]string{"after a failed decode only the following successful ones are compared, against what the failed one left visible"}},
	"C08": {"A case is a history of first uses (type x call) executed in its own process, followed by every call on every type; and types built around unsupported fields.", []string{"quick tier: a fixed spread of the pairs whose first and second call differ"}},
	"C09": {"A case is one schedule of one scenario (2-3 goroutines first-using related types, with the package state reset before each schedule). All schedules with at most the stated number of preemptions at the stated granularity are executed on the real code; race detector on. A state is a distinct (scenario, position, what each thread saw) digest; a transition is one step of a thread.",
		[]string{"sequentially consistent interleavings between points; weak memory effects only as far as the race detector reports them", "preemption bound"}},
	"C10": {"As C09 with types in use already: pairs and triples of calls and short histories on shared messages and shared inputs, under three behaviours of sync.Pool.",
		[]string{"sequentially consistent interleavings between points; weak memory effects only as far as the race detector reports them", "preemption bound"}},
	"C11": {"The cases of C01 and C05, and call histories; after each call the memory reachable from message, input and output is listed and checked for overlaps, and buffers are overwritten to see whether anything changes.", []string{"strings sharing memory with each other are not reported"}},
	"C12": {"A case is a message with one choice of unset, set to zero, set to a value for each optional field: single fields with all values, all pairs, triples, windows of many, and inside nested, repeated and map fields; decoded zeros of all wire forms; the Option API itself.", nil},
	"C13": {"A case is an encoded message cut at one position (every position) or with one byte replaced (every position, alphabet of replacements); error cause and field path are compared with the reference decoder.", []string{"a varint that is both too long and cut may be reported as either"}},
	"C14": {"A case is one or two calls with arguments of all kinds followed by correct calls.", []string{"Size of anything but a pointer and Unmarshal of empty input are left open"}},
	"C15": {"A case is one message value of one generated type: schemas enumerated over syntax, kind, label, maps, nesting, recursion, enums, imports, names, options; the plugin is built from the working tree, its output compiled, and values exchanged in both directions with google.golang.org/protobuf dynamic messages.", []string{"schemas whose Go names collide under protoc-gen-go naming are left out"}},
	"C16": {"A case is one call on one message with a collection (all goroutines stopped, freed memory overwritten and reused, stacks moved) at one statement of the code under test, for every statement executed; and marking under way from every statement on. Transitions are the statements passed.", []string{"collections at statement boundaries of the code under test; inside a statement only through the marking family"}},
	"C17": {"A case is one request to the plugin: all orders and subsets of the files of a schema set, combinations of sets, orders of map ranges, environments, parameters; texts compared with a baseline; contents compared with the descriptors.", nil},
	"C18": {"A case is a history of calls on separate messages (all sequences up to a depth over complete, partial, malformed inputs), each result compared with the reference model and all earlier messages and outputs re-checked at the end.", nil},
	"C19": {"The checker is built with every installed toolchain and map implementation and run on maps and repeated fields of all sizes and histories, and on the spaces of C01, C05 and C07; results are checked against the model and compared across builds by digest.", []string{"the toolchains installed here: 1.23 to 1.27, amd64 and 386"}},
	"C21": {"A case is one file, enum or message of one schema: the schema sets of C15, and files in which every kind of declaration, deprecated and not, has one of all pairs of leading and trailing comment texts. The generated text is parsed and type-checked, and each declaration compared with the descriptor: names and order, Go types, comments, deprecation, comparability, what else is exported.",
		[]string{"comments are compared by their letters and digits", "comments that read as compiler directives (listed finding of C15) are left out"}},
	"C20": {"A case is one state of all oneofs of one generated message type (each unset, or a member with one value of its alphabet; all combinations), with the other fields unset and set, and the nil message; every accessor is called twice in every state and compared with the state. Also every pair of wrapper type and oneof field.", []string{"defaults declared in proto2 schemas are left open", "wrappers that are typed nil pointers are left out"}},
}

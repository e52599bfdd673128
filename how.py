"""For DESIGN.md: what is compared with what, per property."""
HOW = {
"C01": "The harness builds a function whose `?` stands in a symbolically chosen position (inside another chosen position), runs the real `#[hooq]` entry point on its tokens, and compares the whole output, token by token, with the expansion the model in `model.rs` predicts from the same syntax tree. A position the walk forgets, hooks twice or changes otherwise makes the two differ.",
"C02": "All of callee name, return type name and the three configured lists are symbolic identifiers; the oracle decides by comparing the same symbols, so each path condition carries the equalities the code took, and Z3 looks for names in which code and rule disagree.",
"C03": "As C02, for the tail of function, method and closure bodies; expected output from the model, including which of several nested tails is the body's value.",
"C04": "As C02, for blocks whose value is not the body's.",
"C05": "Programs with `skip`/`skip_all` attributes at symbolically chosen elements (and pairs of elements) that contain targets of all kinds; expected output from the model's scoping rules.",
"C06": "Lists of targets with symbolic membership and order, and lists of symbolic text; the oracle accepts exactly the three documented words.",
"C07": "For every setting: an outer value, an inner value on a nested element of each kind, and targets before, in and after each; symbolic values; the model resolves each target's settings from its chain of enclosing elements.",
"C08": "Programs with hooq attributes, foreign attributes and malformed hooq attributes in every place an attribute may stand; the oracle says which remain, and which are a compile error located at the attribute.",
"C09": "The number of targets of one kind before the hooked one is chosen; for the long run, the ordinal function is executed with a symbolic 32-bit counter against the English rule.",
"C10": "Programs with targets of all three kinds in symbolically chosen positions, deselected, skipped or in nested items; the model numbers them in source order.",
"C11": "A hook with a symbolic `$name` (any identifier of bounded length): the oracle knows the documented names and the bindings in scope; everything else must be a compile error that names it. Forms of `$` that are no variable must be left as they are.",
"C12": "Tokens carry symbolic line and column numbers and symbolic file paths; the literals in the expansion must be those of the hooked token, of its file, and of the file name for every path.",
"C13": "For each kind of target and operand, `$expr` must be the operand after inner hooks and `$source` the operand as written.",
"C14": "Chains of nested methods with `$so_far` at chosen levels, in several settings that override each other; the model composes the hook.",
"C15": "Bindings at nested levels under symbolic names (equal or different), given by attribute, flavor or root; the model finds the innermost.",
"C16": "Targets under chains of functions, methods and closures of chosen forms; the model names and prints the innermost one.",
"C17": "Macro calls with arguments in the three readings (expressions, statements, items), separators and delimiters chosen symbolically, with arguments that are not Rust code; the oracle says which are rewritten.",
"C18": "A flavor path of symbolic letters against the table of existing flavors: exactly the equal name is accepted, every other is a compile error.",
"C19": "A hooq.toml built from symbolically chosen fields in a parent table, sub table and overriding preset, with symbolic names; read by the real TOML reader executed symbolically; the oracle resolves each setting by the documented inheritance.",
"C20": "Every program of the other harnesses under `#[hooq(empty)]`: output tokens equal input tokens.",
"C21": "`#[hooq::setting = flavor]` for each setting and several flavors that differ in every setting; the model takes exactly that one.",
"C22": "Literals of symbolic characters (letters and multi-byte) and a symbolic limit, through the exported macros; oracle: the documented head..tail rule per line.",
"C23": "Expressions of symbolic numbers of lines and a symbolic line limit; oracle: first line, ellipsis, last lines.",
"C24": "Symbolic line numbers up to 32 bits; every gutter must have the same width and the right number.",
"C25": "Tokens at symbolic lines and columns; the oracle lays the same tokens out and strips the common indentation.",
"C26": "As C25 for the one-line form.",
"C27": "Symbolic option names and values; documented options have their effect, all others are compile errors.",
"C28": "Sequences of token pieces, symbolic characters and token positions in every place that takes user tokens; a panic of the executed code, an overflow, an out-of-bounds access or a hang is a violation, as is output that `syn` does not parse as items or expressions.",
"C29": "The crate compiled with `consume-question`; programs as in C01 with hooks that end in `!` or do not; the model drops the `?` exactly there.",
"C30": "`HooqMeta::get_binding` on a map with symbolic keys and types chosen symbolically; found exactly when name and type agree, and then the same value.",
"C31": "Paths of symbolic segments against configured symbolic names; oracle: equality of the last segment.",
"C32": "Root attributes from symbolic pieces (flavor, imports, in any order and number); the model says which items and imports come out, or that it is an error.",
"C33": "Histories of expansions in one process with CARGO_MANIFEST_DIR and the presence and content of hooq.toml changing in between; each expansion must equal that of a fresh process.",
"C34": "Each preset and sub flavor on a program in which each of its settings matters; expected output written from the documentation.",
"C35": "The manifest's dependency table (name under which hooq is imported) is symbolic; every path the expansion writes must start with exactly that name.",
"C36": "Items of nine kinds nested in chosen order; and 41+18 places whose code must not be touched, with code in them that would be hooked if it were walked.",
"C37": "The executor intercepts the standard library's hashing and lets the harness choose the buckets of three keys; for each of the six orders the output (or the error text) must equal that of the first run. Natively the replay repeats the run with fresh random seeds.",
"C38": "Files with one mistake each, next to correct tables; each must be an error, of the right kind, for every flavor asked for.",
"C39": "The programs in twins/ are expanded by /repo's macros inside rustc; the compiled result and the hand-hooked twin are executed symbolically on the same symbolic inputs and failure plan, and the solver is asked for values on which their traces differ.",
}

"""The properties, and what decides each of them.  gen.py writes
properties.jsonl and MANIFEST.json from this table; check runs it."""
PROPS = {}
I = "hooq-macros/src/impls/"
F = dict(
    walk=I + "walker/mod.rs", hook=I + "walker/hook_expr.rs", wmac=I + "walker/walk_macro.rs",
    render=I + "method/render/mod.rs", meta=I + "method/render/meta_vars.rs", method=I + "method/mod.rs",
    ctx=I + "inert_attr/context.rs", iparse=I + "inert_attr/parse.rs", root=I + "root_attr/mod.rs", rparse=I + "root_attr/parse.rs",
    flavor=I + "flavor/mod.rs", fpath=I + "flavor/flavor_path.rs", apply=I + "flavor/toml_load/apply.rs", toml=I + "flavor/toml_load/mod.rs",
    presets=I + "flavor/presets/mod.rs", fi=I + "utils/function_info.rs", ex=I + "utils/source_excerpt.rs", exm=I + "utils/source_excerpt_macros.rs",
    utils=I + "utils/mod.rs", crate=I + "utils/get_hooq_crate_name.rs", impls="hooq-macros/src/impls/mod.rs", lib="hooq-macros/src/lib.rs", helpers="hooq-helpers/src/lib.rs",
)

def h(name, covers=1, **k):
    return dict(name=name, covers=covers, **k)

def p(id, title, statement, over, over_text, why, files, mech, harnesses=(), bounds="", outside="", state=(), **k):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, over_text=over_text, why=why,
                     files=[F[f] for f in files], mech=[(m, F[w]) for m, w in mech], state=state,
                     harnesses=list(harnesses), bounds=bounds, outside=outside, **k)

NAMES = "names one to two symbolic letters long behind a fixed prefix"

p("C01", "Every `?` is hooked exactly once, wherever it is nested",
  "In an item under #[hooq] every `?` gets the configured hook on its operand exactly once, in every syntactic position: arguments, receivers, indices, struct fields and bases, conditions, guards, initialisers and their `else` blocks, both sides of assignments and operators, loop heads and bodies, blocks of every kind, closures, nested items and Rust code in macro calls. Everything else in the item comes out token for token as it was written.",
  ["programs"], "all programs: any `?` in any position, positions nested to any depth",
  "The tests expand a fixed set of hand-written functions; positions and their combinations are unbounded, and a position that the walk forgets is silently left unhooked.",
  ["walk", "hook", "wmac"], [("recursive walk over items, statements and expressions", "walk"), ("rewriting of one `?`", "hook")],
  [h("h_q1", 84), h("h_q2", 84), h("h_shape_q", 227), h("h_q2all", 84, tier="thorough"), h("h_shape2", 11, tier="thorough")],
  "one function with one `?` in each of 84 syntactic positions (h_q1); one `?` in a position inside another position: representatives of every walk rule in the quick tier, all 84x84 ordered pairs in the thorough tier; a `?` in every place of 227 forms at once (which optional parts are there, how many elements, in which order; h_shape_q), and inside 11 representative forms and around them (thorough); " + NAMES,
  "nesting deeper than two positions at once; syntax that syn keeps as verbatim tokens")

p("C02", "`return` operands are hooked exactly when the rules say so",
  "The operand of `return` is hooked exactly when it is a call whose path ends in a name of tail_expr_idents, or when the declared return type of the innermost enclosing function or closure is a path that ends in a name of result_types and the operand is not a call whose path ends in a name of ignore_tail_expr_idents. The hook goes after the whole operand, once; a bare `return`, and `return` in a function or closure without a matching declared type, is left alone unless the first rule applies.",
  ["programs", "configurations"], "all operands, return types, lists of names and enclosing functions or closures",
  "The rule is a function of four open-ended sets of names and of nesting; tests fix `Err`/`Ok`/`Result` and a handful of shapes.",
  ["walk", "hook", "ctx", "fi", "utils", "render"], [("target decision", "hook"), ("name lists", "ctx"), ("declared return type", "fi")],
  [h("h_ret", 10), h("h_ret_nest", 12), h("h_shape_ret", 227)],
  "31 operand forms x 10 return types x 6 holders (functions, methods, closures) with symbolic names for callee, return type and the three lists (so every equality pattern between them), and 12 nestings of blocks and closures between the `return` and its function; a `return` in every place of 227 syntactic forms",
  "`return` inside `async` blocks is judged by the enclosing function, as the code does; generic arguments other than the listed ones")

p("C03", "The value of a function or closure body is hooked by the same rules",
  "The last expression without `;` of a function or closure body (or the whole body of a closure without braces) is hooked exactly under the same rules as a `return` operand, after the whole expression and exactly once. When that expression is itself a `return`, only its operand is considered.",
  ["programs", "configurations"], "all tail expressions, return types, and lists of names",
  "As for `return`: the outcome depends on open-ended names and shapes; the tests fix a few.",
  ["walk", "hook", "ctx", "fi", "render"], [("tail handling", "hook"), ("bodies of functions and closures", "walk")],
  [h("h_tail", 10), h("h_block_is_tail", 15)],
  "31 tail forms x 10 return types x 6 holders with symbolic names; 15 block-like tails with inner tails, in insertion and replacement mode",
  "deeper nesting of block-like tails than two levels")

p("C04", "Values of inner blocks are hooked only for configured calls",
  "The last expression without `;` of an inner block, branch, loop body or match arm is hooked exactly when it is a call whose path ends in a name of tail_expr_idents; the function's return type plays no role there. An expression followed by `;`, or not last in its block, is never a tail.",
  ["programs", "configurations"], "all kinds of blocks, tails and lists of names",
  "Needs every kind of block crossed with names that match or do not match; tests sample a few.",
  ["walk", "hook", "ctx"], [("blocks and arms", "walk"), ("tail handling", "hook")],
  [h("h_block_tail", 16), h("h_not_tail", 1), h("h_shape_tail", 227)],
  "16 kinds of block x 31 tails x 2 return types with symbolic names; non-tail statements in 4 kinds of block; a block with a tail in every place of 227 syntactic forms",
  "three or more levels of nested blocks")

p("C05", "`skip` and `skip_all` switch hooking off for exactly their scope",
  "Under #[hooq::skip] the element itself is not hooked up to the next inner block, closure or function scope, inside which hooking resumes; under #[hooq::skip_all] nothing inside the element is hooked at any depth, whatever attributes stand inside. Skipped positions are not counted, and elements before and after are unaffected.",
  ["programs"], "all positions for the attribute and all nestings of skips",
  "A skip that leaks out of or stops short of its scope shows only in particular combinations of position and nesting.",
  ["ctx", "walk", "iparse"], [("skip status and its inheritance", "ctx"), ("scopes", "walk")],
  [h("h_skip", 51), h("h_skip2", 6), h("h_shape_off", 3)],
  "6 combinations of the skip attributes at 51 positions, each holding code directly and in an inner scope with every kind of target; two nested elements x 9 combinations at 36 pairs of positions; `skip_all` (and a narrower hook_targets) above 227 syntactic forms with targets in all their places; symbolic names",
  "three or more nested skips", opt=0)

p("C07", "A setting holds inside its element, innermost first, and nowhere else",
  "An attribute for method, hook_targets, tail_expr_idents, ignore_tail_expr_idents, result_types, hook_in_macros or a binding takes effect for the whole element it stands on, including everything nested in it, and for nothing outside it. Of several enclosing attributes for the same setting the innermost wins; a setting that is not mentioned keeps the value of the enclosing element.",
  ["programs", "configurations"], "all settings, positions and nestings",
  "Scoping has to hold for every pair of settings and positions; the tests check a few attributes on a few elements.",
  ["ctx", "iparse", "walk"], [("context derivation from the parent", "ctx"), ("attribute handling at each kind of node", "walk")],
  [h("h_scope", 51), h("h_scope2", 3), h("h_scope3", 7), h("h_scope2all", 6, tier="thorough")],
  "22 settings (with symbolic names) at each of 51 positions that take attributes, observed by probes of every target kind before, directly in, deeper in and after the element; pairs of settings on two nested elements (34 pairs x 18 placements quick, 484 x 36 thorough); all triples of three values of one setting on three nested elements, for 7 settings",
  "attributes on match arms and on `let` without initialiser, which the macro does not look at", opt=1)

p("C06", "`hook_targets` selects exactly the listed kinds of target",
  "hook_targets takes any list of the documented spellings of `?`, `return` and tail expression, and `all`; exactly the kinds in the list are hooked, an empty list switches hooking off, and a later attribute replaces an earlier one. Any other text or token in the list is an error, and the message for an unknown text names it.",
  ["configurations", "inputs"], "all lists of target names, including every text that is not one",
  "Which texts are accepted is a question over all strings; the tests use a handful of spellings.",
  ["iparse", "ctx", "hook"], [("target names", "iparse"), ("kind check before hooking", "hook")],
  [h("h_targets", 6), h("h_targets_text", 2), h("h_targets_bad", 14)],
  "all lists of up to two spellings (of 8) and all subsets of the three kinds, on a function holding each kind in several places; any printable text of up to 9 characters as a target name, alone or in a list; 14 non-string token shapes in each of the 4 list attributes",
  "lists of more than three names; texts longer than nine characters")

p("C08", "hooq's attributes are consumed, all others stay, malformed ones are errors",
  "The output contains no attribute of hooq's, and every other attribute stays where it was, in order. An attribute under `hooq::` whose name hooq does not know, or whose value has the wrong shape, is a compile error; it is never silently dropped or passed on.",
  ["programs", "inputs"], "all attribute lists at all positions",
  "An attribute that is lost or left behind depends on the mix of attributes and on the position; unknown names range over all identifiers.",
  ["iparse", "ctx", "walk"], [("attribute filter", "iparse"), ("attribute handling at each kind of node", "walk")],
  [h("h_bad_name", 2), h("h_bad_place", 30), h("h_bad_msg", 12), h("h_keep", 18), h("h_tail_attr", 61), h("h_keep_all", 18, tier="thorough")],
  "an attribute `hooq::<name>` with a symbolic name in each of its syntactic shapes, malformed values for every attribute, malformed attributes at 30 positions, and mixes of kept and consumed attributes (18 kinds) at positions all over the item; 4 sets of attributes on the value of a block, for 61 kinds of it",
  "attributes on match arms, init-less `let`, and other places that the macro does not look at")

p("C09", "The n-th target of its kind is called 1st, 2nd, 3rd, … n-th",
  "$nth and $count give the English ordinal of the target (`1st ?`, `2nd return`, `11th tail expr`, `111th ?`, …) with the right suffix for every number.",
  ["inputs"], "all numbers of targets",
  "The suffix rule has exceptions (11th to 13th in every hundred) which the tests' short functions never reach.",
  ["render", "hook"], [("ordinal text", "render"), ("counters", "hook")],
  [h("h_ordinal", 4), h("h_ordinal_long", 0, tier="thorough")],
  "functions with 130 targets of one kind and 75 mixed ones (quick), 1130 (thorough); symbolic names",
  "more targets than that")

p("C10", "Targets are numbered per kind, in source order, without gaps",
  "Each kind of target (`?`, return, tail expression) has its own numbering, which follows source order (a `return` or tail after the targets inside its operand), counts every target exactly once and does not restart inside the annotated item. Targets that are skipped or that the rules leave alone are not counted; a kind switched off by hook_targets keeps counting.",
  ["programs", "histories"], "all sequences and nestings of targets",
  "A wrong increment shows only in a particular sequence of kinds; the tests number short lists of one kind.",
  ["hook", "ctx", "walk", "wmac"], [("counters", "ctx"), ("walk order", "walk")],
  [h("h_order", 14), h("h_order_slots", 38), h("h_order_items", 4), h("h_order_all", 0, tier="thorough")],
  "sequences of three of 14 statement shapes (all pairs, third derived; quick), of four (all 14^4; thorough); 38 constructs with targets in all their places, each in the first or last place of each, insertion and replacement mode; items holding several functions and constants in modules, impls and traits; symbolic names",
  "sequences longer than four statements (each with up to four targets)",
  state=[("counters", "hooked targets so far, per kind", F["ctx"])])

p("C11", "Every `$name` in a hook is replaced by its value, or is an error",
  "Every occurrence of a meta variable, of any of its aliases, or of a binding in the hook, at any depth and in macro arguments, is replaced by its value; a meta variable takes precedence over a binding of its name, and literals are left alone. A `$name` that is neither is an error listing the bindings and meta variables there are, in order; `$` in front of anything but a name is an error.",
  ["inputs", "configurations"], "all names after `$`, and all places in the hook",
  "Known names are a finite set among all identifiers: that no other name is taken, and no near-miss accepted, cannot be sampled.",
  ["render", "meta"], [("token substitution", "render"), ("names of the meta variables", "meta")],
  [h("h_meta_name", 13), h("h_meta_alias", 18), h("h_meta_bound", 10), h("h_meta_odd", 21), h("h_meta_dollar", 16), h("h_meta_groups", 13)],
  "any identifier of one to nine characters (symbolic letters, digits, underscores) after `$`, in insertion and replacement mode, next to three bindings; 18 names and aliases in 6 hook shapes, with and without a binding of the name; any name of one to nine characters with a binding of that name; 21 names of unusual form (underscores, raw, not ASCII, keywords); 16 shapes of `$` before something else or nothing; 13 hooks with groups of every kind, also the invisible ones of macro_rules fragments",
  "other identifiers that start with an underscore, are raw, not ASCII, or longer than nine characters")

p("C12", "Locations in the hook are those of the hooked token",
  "$line, $column (and $col), $path and $file, alone and inside $hooq_meta, are the 1-based line and column and the path and file name of the target: of the `?`, of the `return` keyword, or of the first token of the tail expression. The file name is what follows the last `/` of the path.",
  ["inputs", "programs"], "all lines, columns and paths",
  "The location must come from the right token for every kind of target, and be right for every number and path; tests see one file and few lines.",
  ["render", "hook"], [("location text", "render"), ("span of the target", "hook")],
  [h("h_loc", 4), h("h_file", 3), h("h_file_dirs", 3), h("h_loc_all", 4, tier="thorough"), h("h_file_long", 3, tier="thorough")],
  "any line in 1..1100 and any column in 1..120 (quick), lines up to 120000 with columns up to 300 (thorough); paths of 0, 1 and 3 printable characters, and of up to 2 behind 6 directories (quick), of up to 6 behind these (thorough); each kind of target",
  "paths with `\"` or backslashes, longer paths; a span given by another macro")

p("C13", "`$expr` holds the hooked operand, `$source` the operand as written",
  "In a hook, $expr stands for the target's operand with the hooks inside it already applied, and $source for the operand's tokens exactly as they were written, for every operand and however often the names occur.",
  ["programs"], "all operands with targets inside",
  "Confusing the two, or hooking $source, is visible only when the operand itself holds targets, in some position.",
  ["render", "hook"], [("values of $expr and $source", "render"), ("operand before and after the walk", "hook")],
  [h("h_expr_source", 84), h("h_source_attrs", 51)],
  "operands holding a target in each of 84 syntactic positions, in 3 hooks (insertion and replacement), for `?`, return and tail targets; `$source` and `$expr` of elements at 51 positions with attributes; symbolic names",
  "attributes of hooq's inside the operand, which `$source` keeps (as rustc shows them)")

p("C14", "`$so_far` is the hook that the current one overrides",
  "In a hook, $so_far (or $sofar) stands for the hook of the enclosing element that this one overrides, with its own names replaced where it is used: its bindings and ordinals are those of the target. The chain may have any length and mix insertion and replacement.",
  ["configurations"], "all chains of overridden hooks",
  "Chains are unbounded, and each link may insert or replace, repeat or wrap the earlier ones.",
  ["render", "ctx", "method"], [("expansion of $so_far", "render"), ("parent methods", "ctx")],
  [h("h_sofar", 9), h("h_sofar_all", 0, tier="thorough")],
  "chains of four hooks, each of the last three from 9 templates (all pairs, third derived, quick; all 729 triples, thorough), with a binding that changes along the chain; symbolic names",
  "chains longer than four")

p("C15", "A binding stands for its innermost definition, visible below it",
  "A binding, in any of its syntaxes, is visible in hooks at the element it stands on and below; of several with one name the innermost (on one element: the last) wins. $bindings is a map with exactly the visible bindings, their source text and value.",
  ["configurations", "inputs"], "all names, values and nestings of bindings",
  "Shadowing depends on which of several open-ended names coincide.",
  ["iparse", "ctx", "render"], [("binding attributes", "iparse"), ("inheritance", "ctx"), ("$bindings", "render")],
  [h("h_bind_names", 3), h("h_bind_scopes", 16), h("h_bind_flavor", 4)],
  "four symbolic two-letter names (so every pattern of equal names) for the name looked up and three definitions on nested elements, in 3 syntaxes, with lookups inside, after, and by $bindings; 16 kinds of value in 3 syntaxes and 4 nestings; bindings and those of two flavors in 6 and 5 orders on two elements, below a flavor or none",
  "more than three definitions at once; longer names")

p("C16", "`$fn_name` and `$fn_sig` describe the innermost function or closure",
  "$fn_name is the name of the innermost enclosing function, or for a closure `__closure_in_<name>__` of the named function around it; $fn_sig is its signature without the body (for closures the head with an empty body). After a nested function or closure the outer one is current again.",
  ["programs"], "all signatures and nestings of functions and closures",
  "The current function has to be right after any sequence of entering and leaving functions; tests have one or two.",
  ["fi", "walk", "render"], [("function information", "fi"), ("entering functions and closures", "walk")],
  [h("h_fninfo", 4), h("h_fnchain", 6), h("h_fnchain4", 6, tier="thorough")],
  "8 signatures x 6 nestings of functions, methods, constants, closures and async blocks x 4 names; all chains of two or three (thorough: four) nested functions, closures, methods, constants, async blocks and closures in statics, observed before and after each; symbolic function and type names",
  "deeper nestings; other signature syntax (the text is printed by proc_macro2)")

p("C31", "Configured names match whole last path segments, and nothing else",
  "A name of tail_expr_idents, ignore_tail_expr_idents or result_types matches a path exactly when it equals the path's last segment: not a prefix or part of it, not an earlier segment, not generic arguments, and case counts. Calls through anything but a path never match, and method calls never do.",
  ["inputs"], "all names in the lists and all paths in the program",
  "Equality of names is a question over all pairs of strings; tests use a few fixed names.",
  ["utils", "hook", "ctx"], [("last segment", "utils"), ("comparison with the lists", "hook")],
  [h("h_names_default", 16), h("h_names", 1), h("h_names_types", 13), h("h_names_forms", 1), h("h_names_all", 1, tier="thorough")],
  "symbolic capitalised names of one to six characters for callee, return type and entries of the three lists, independently, against each other and the defaults; 16 forms of callee (leading `::`, several segments, generics, qualified paths, names, methods, parentheses, macros), 13 of return type",
  "names longer than six characters, raw or non-ASCII identifiers")

p("C30", "`HooqMeta::get_binding` returns a binding of exactly that name and type",
  "get_binding::<T>(name) is Some exactly when a binding of that name exists and its value's type is T, and then refers to that value; any other name or type gives None, and no call panics or changes another's answer.",
  ["inputs", "histories"], "all names, types and sets of bindings",
  "Generated code asks at run time for names and types of the user's choosing; a wrong downcast or lookup shows only for particular types and names.",
  ["helpers"], [("lookup and downcast", "helpers")],
  [h("h_get_binding", 13)],
  "maps of up to three bindings with symbolic names (any pattern of equal names) and 11 value types with symbolic contents, asked for every one of the 11 types under symbolic names, twice",
  "the keys' hash function (the model puts all keys into one chain of the real hashbrown table)")

p("C22", "Truncation shortens exactly the lines of string literals beyond the limit",
  "truncate_lit_str! (and the truncation of the other excerpt macros) replaces every line of a string literal that is longer than the limit (10 by default, counted in characters) by its beginning, `..` and its end; with a limit of two or more the result is exactly as long as the limit, begin and end together two shorter and the begin not longer. Shorter lines, other literals, macro arguments and all other tokens stay.",
  ["inputs"], "all string contents, limits, and positions of literals",
  "Lengths around the limit, odd limits, line breaks and characters of several bytes are edge cases that fixed examples miss.",
  ["ex", "exm"], [("shortening of one line", "ex"), ("walk over the expression's literals", "ex")],
  [h("h_trunc", 15), h("h_trunc_all", 15, tier="thorough")],
  "contents of 0 to 12 (thorough: 18) characters: symbolic printable ASCII, with line breaks and two- to four-byte characters at several places; limits by default, two, three and around the length and its half; literals in 11 positions",
  "limits 0 and 1 (where the macro leaves just `..`); literals with escapes in their source text")

p("C23", "An excerpt is the first line and the last lines, with `...` for what is left out",
  "excerpted_pretty_stringify! with a limit of n lines (5 by default) shows all lines if there are at most n (or at most two and n is not 1), otherwise the first line, a line `...`, and the last n-1 lines, each with its own line number; with n = 1 only the last line. String literals are truncated, which never changes the numbers of the lines around them.",
  ["inputs", "programs"], "all expressions, layouts and limits",
  "Off-by-one errors show only for particular pairs of line count and limit.",
  ["ex", "exm"], [("choice of lines", "ex"), ("default settings", "ex")],
  [h("h_excerpt", 10), h("h_excerpt_lit", 6), h("h_excerpt_lit_all", 6, tier="thorough")],
  "expressions of 1 to 8 lines x limits 1 to 11 and the default x 4 paddings x start lines around 7, 9996 and 99997; 6 expressions with (multi-line) literals x breaks before any token x 5 truncations x limits",
  "expressions of more than 8 lines")

p("C24", "Line numbers and padding line up for every line number",
  "With @show_line_num every line is preceded by its number, right-aligned in a gutter as wide as the largest number shown but at least four, then `>` on the first line and `|` on all others; @padding adds a line with just the gutter and `|` (without line numbers an empty line) above, below, or both.",
  ["inputs"], "all start lines, numbers of lines and paddings",
  "The width changes where the number of digits does, which no test file reaches.",
  ["ex", "exm"], [("gutter", "ex")],
  [h("h_gutter", 7), h("h_gutter_all", 7, tier="thorough")],
  "expressions of 1 to 5 (thorough: 8) lines, with and without blank lines, with literals whose lines are blank or end in blanks, starting at any line within 12 of 1, 90, 990, 9990 and 99990 (thorough: 20, also 999990), with and without line numbers, 5 paddings",
  "line numbers beyond one million")

p("C25", "A pretty string shows the source text as it is laid out",
  "pretty_stringify! gives the expression's text with its tokens, gaps, line breaks, blank lines and indentation exactly as in the source (the first line indented by four spaces, comments as blanks), wherever the breaks are.",
  ["programs"], "all expressions and all layouts of their tokens",
  "The text is rebuilt from token positions; which gap or break goes wrong depends on the token and place, of which tests have a few.",
  ["ex"], [("text from token positions", "ex")],
  [h("h_pretty", 19), h("h_pretty2", 19)],
  "17 expressions covering every token kind (delimiters, joint punctuation, lifetimes, raw and multi-line literals, attributes, macro calls) x a break or extra gap before any token: 0 to 2 line breaks, any column or gap of 0 to 5, without and with a second break after it; symbolic start line and column",
  "tabs and wide characters before a token on its line; tokens that come from another macro's expansion")

p("C26", "A one-line string is the source text with every line break as one space",
  "one_line_stringify! gives the same text on a single line: every line break with the blanks around it becomes one space, everything else stays, and string literals are truncated only if asked to.",
  ["programs"], "all expressions and layouts",
  "As for pretty strings: it depends on where the breaks are.",
  ["ex", "exm"], [("joining of the lines", "ex")],
  [h("h_oneline", 17)],
  "the 17 expressions of C25 x a break or gap before any token (0 to 2 breaks, 0 to 2 columns) and a second break, with and without truncation",
  "as C25")

p("C27", "Options of the excerpt macros: each has its effect, anything else is an error",
  "The excerpt macros take any of @excerpt_line, @truncate_str, @show_line_num and @padding in any order and number (the last of a kind counts), separated by commas (which may be missing after a value) and optionally ended by `;`; an option that does not concern a macro has no effect on it. Unknown options, missing or ill-typed values, other paddings, zero lines and missing expressions are compile errors that say so.",
  ["inputs", "configurations"], "all sequences of options and all option names and values",
  "Options combine freely, and what is rejected ranges over all names; the tests use each once.",
  ["exm", "ex"], [("option parser", "exm")],
  [h("h_opts", 21), h("h_opt_names", 18), h("h_opt_bad", 22), h("h_opt_none", 1), h("h_opts3", 21, tier="thorough")],
  "all sequences of up to two (thorough: three) of 21 well- and ill-formed options with every separator, for each of the 4 macros; any option name of up to 13 letters and any padding text of up to 13 characters; 22 malformed beginnings",
  "longer sequences of options")

p("C17", "Macro calls: lists of Rust code are hooked, everything else is left alone",
  "With hook_in_macros on, the contents of a macro call are hooked exactly when they are a list of items, expressions or statements separated by `,` or `;`; their targets are then treated as if they stood there (no tail in macro contents). Contents of any other form, and all contents when it is off, come out token for token as written, as do path, delimiters and separators.",
  ["programs"], "all macro calls: all contents, separators, delimiters and places",
  "Macro contents are free-form: what counts as a list, and that nothing of it is lost, cannot be settled by a handful of calls.",
  ["wmac", "walk"], [("contents of macro calls", "wmac"), ("macro calls as items, statements and expressions", "walk")],
  [h("h_macro", 25), h("h_macro_items", 3), h("h_macro_switch", 83), h("h_macro_raw", 29), h("h_macro_all", 25, tier="thorough")],
  "lists of one entry of 25 kinds in 3 delimiters and 4 places with and without trailing separator, of two entries (all pairs; thorough: all triples), 29 forms that are no list alone or among good entries, items in macro calls in 3 places, the switch in 83 positions around nested calls; symbolic names",
  "lists of more than three entries; contents where a prefix is ambiguous between statement and expression")

p("C18", "A flavor name selects exactly the flavor of that name",
  "`#[hooq(a::b)]` and `#[hooq(flavor = \"a::b\")]` or `\"a.b\"` select the flavor with exactly that path among the presets and those of hooq.toml; no flavor means `default`. Any other path is an error naming it and listing the flavors there are, and what is not a path of non-empty names is an error.",
  ["inputs", "configurations"], "all names and paths, all sets of flavors",
  "Equality and splitting of names is a question over all texts; the tests use a few.",
  ["fpath", "flavor", "rparse"], [("flavor paths", "fpath"), ("lookup", "flavor")],
  [h("h_flavor_path", 6), h("h_flavor_text", 5), h("h_flavor_near", 2), h("h_flavor_form", 32), h("h_flavor_text_all", 5, tier="thorough")],
  "paths of one to three symbolic names of one to three characters; any printable text of up to four (thorough: six) characters as flavor string; every preset name with any one character replaced; 33 forms around paths",
  "`'` in symbolic texts; longer names")

p("C19", "Flavors from hooq.toml: own settings, and the parent's where there is none",
  "A flavor of hooq.toml has for each setting its own value if its table gives one, otherwise that of the flavor it overrides (a preset or `default`'s built-in) or extends (its parent table's, for a sub flavor); bindings are merged by name. A table affects the flavor of its path only, and top-level flavors do not inherit from an overridden `default`.",
  ["configurations"], "all hooq.toml files: all tables, nestings, names and settings",
  "Nine settings on every level, set or unset, under arbitrary names: the tests have three small files.",
  ["apply", "toml", "flavor"], [("tables applied to flavors", "apply"), ("the flavors there are", "flavor")],
  [h("h_toml_fields", 9), h("h_toml_two", 4), h("h_toml_pair", 9), h("h_toml_names", 3), h("h_toml_names_top", 3)],
  "each of 9 settings set or not on each of three levels of tables (all 8 patterns), over 5 bases, seen from each level; all pairs of settings on three tables and in one table; two nested and two top-level tables with symbolic names (every pattern of equal names, also with the binding names); symbolic names in the lists",
  "more than three levels; the TOML parser itself is the real `toml` crate, run on concrete files")

p("C20", "`#[hooq(empty)]` leaves the item as it was",
  "With the flavor `empty`, the item comes out exactly as written without hooq's attributes, whatever `?`, `return`, tails and hooq attributes without hook targets it has and whatever hooq.toml says about other flavors; `empty` itself cannot be overridden.",
  ["programs", "configurations"], "all items and configurations",
  "It is the switch users rely on to turn hooq off; one forgotten default is seen only in the position concerned.",
  ["flavor", "walk", "toml"], [("the empty flavor", "flavor")],
  [h("h_empty", 84), h("h_empty_all", 84, tier="thorough")],
  "a `?` in each of 84 positions inside another one (quick: one derived; thorough: all pairs), with `return` and tail, under 6 sets of attributes and 2 configurations; symbolic names",
  "attributes that give hook targets again (they then hook, as documented)")

p("C21", "A flavor given to one setting brings that setting and nothing else",
  "`#[hooq::<setting> = flavor]` takes just this setting from the flavor (`tail_expr_idents` with the ignore list), `#[hooq::flavor = f]` takes all of them; settings of attributes after it on the same element win over it, and it over those before. The flavor may be any path or string; anything else is an error that says so.",
  ["configurations", "programs"], "all settings, flavors, elements and orders of attributes",
  "Seven settings from any flavor on any element and in any order: the tests have a few.",
  ["iparse", "ctx", "flavor"], [("flavors in attributes", "iparse"), ("settings taken over", "ctx")],
  [h("h_part", 7), h("h_part_order", 7), h("h_part_bad", 19), h("h_part_all", 51, tier="thorough")],
  "7 settings x 8 flavors x representative elements and 10 companions before or after it (all companions for 2 flavors; thorough: all 50 elements and companions); 19 values that are no flavor x 8 settings x 3 elements; symbolic names",
  "more than three attributes on one element")

p("C29", "With consume-question, a hook that ends in `!` takes the place of the `?`",
  "With the feature consume-question, a `?` whose hook ends in `!` is dropped (with the `!`) and everything else of its expression stays, including attributes; hooks that end otherwise keep the `?`; `return` and tail targets and everything else work as without the feature.",
  ["programs", "configurations"], "all hooks, positions and overridings",
  "A `?` that stays or is lost in some position changes the control flow of the program.",
  ["walk", "hook", "method"], [("dropping the `?`", "walk"), ("the `!` at the end of a hook", "method")],
  [h("h_cq", 84), h("h_cq_mix", 6), h("h_cq_same", 51), h("h_cq_all", 84, tier="thorough")],
  "4 hooks x 84 positions of the `?` (thorough: 3 hooks x all pairs of positions), all pairs of 12 hooks as outer and overriding hook in 6 settings (kinds of target, $so_far, attributes, skips, targets); attributes in 50 positions with hooks without `!`",
  "hooks ending in `!` inside a delimiter; `!` on hooks of return and tail targets beyond the listed ones")

p("C32", "The root attribute takes one flavor and any number of imports",
  "`#[hooq(...)]` takes a list of flavors and `trait_use(...)`: the last flavor holds, and all traits are imported with `use ... as _` in front of the item, in order, before those of the flavor. The item itself follows. Anything else is an error that lists the formats and flavors.",
  ["inputs", "configurations"], "all lists of entries and all kinds of item",
  "Lists are open-ended and entry names arbitrary.",
  ["root", "rparse", "impls"], [("root attribute", "rparse"), ("imports", "impls")],
  [h("h_root", 25), h("h_root_name", 2), h("h_root_item", 8), h("h_root3", 15, tier="thorough")],
  "all lists of up to two of 25 good and bad entries (with and without trailing comma), 144 lists of three (thorough: all 3375 triples of 15); any name of up to 11 characters before `(...)` and `= \"...\"`; 8 kinds of item",
  "longer lists")

p("C33", "Each project sees its own hooq.toml, whatever was expanded before",
  "An expansion sees the flavors of the hooq.toml of the crate being compiled and no other, whatever other crates (with another, none, or a broken hooq.toml) the same process expanded before.",
  ["histories"], "all sequences of expansions in one process",
  "State kept between expansions is wrong only after particular sequences (as in rust-analyzer, which expands many crates in one process).",
  ["toml", "flavor", "impls"], [("flavors kept per project", "toml")],
  [h("h_history", 16), h("h_history3", 64), h("h_history4", 256, tier="thorough")],
  "all sequences of two and three (thorough: four) expansions over four projects (two different files, none, a broken one; in folders of equal names, in one another, or differing by case) and two flavors",
  "changes of a file between two expansions (the first version read is kept)")

p("C34", "The presets do what the documentation says",
  "The flavors default, empty, hook, anyhow, eyre, log and tracing (with their sub flavors) have exactly the documented hook, targets, name lists, imports and bindings.",
  ["configurations", "inputs"], "all presets, on every kind of target and at every location",
  "The presets are what users use; a change of one of their settings is seen only where this setting matters.",
  ["presets"], [("built-in flavors", "presets")],
  [h("h_presets", 8)],
  "each preset and sub flavor on an item with every kind of target, with and without names of the lists, and a macro call; symbolic lines and columns",
  "the code the hook expands to at run time")

p("C38", "Mistakes in hooq.toml are reported as such",
  "Any hooq.toml that cannot be read as flavors (unreadable, not UTF-8, syntax errors, unknown or ill-typed settings, texts that are no paths, hooks or values, unknown hook targets, a table for `empty`, empty names) makes every expansion of the project a compile error that says what is wrong, whichever flavor it asks for; documented spellings are accepted.",
  ["inputs", "configurations"], "all files",
  "A mistake that is ignored silently leaves code unhooked; tests have a handful of files.",
  ["toml", "apply", "ctx"], [("settings read from a table", "apply"), ("the file", "toml")],
  [h("h_toml_bad", 36), h("h_toml_target", 2), h("h_toml_file", 4), h("h_toml_file3", 4, tier="thorough")],
  "36 mistakes x 3 surroundings x 4 root attributes; any text of up to 9 characters as hook target; any two (thorough: three) bytes in a comment, and a directory named hooq.toml",
  "other mistakes; the wording of the TOML parser's own messages")

p("C28", "Every expansion ends with Rust code or a compile error, never a panic",
  "Whatever tokens stand in #[hooq(...)], in a #[hooq::...] attribute, in a macro call, in the item, in an excerpt macro, or as text in hooq.toml, and wherever the tokens come from, the macros end, without panicking, with tokens that parse as Rust items (expressions for the excerpt macros) or with a compile error.",
  ["inputs"], "all token streams, texts and token positions",
  "A panic in a macro is an unhelpful error on input nobody thought of, which is what tests do not contain.",
  ["lib", "impls", "iparse", "method", "ex", "exm"], [("entry points", "lib"), ("hooks", "method"), ("attribute parser", "iparse")],
  [h("h_total", 31), h("h_total_cq", 9), h("h_total_text", 8), h("h_total_toml", 8), h("h_total_excerpt", 8), h("h_total_spans", 4),
   h("h_total3", 31, tier="thorough"), h("h_total_text3", 8, tier="thorough"), h("h_total_toml3", 8, tier="thorough"), h("h_total_excerpt3", 8, tier="thorough"), h("h_total_spans_all", 4, tier="thorough")],
  "up to two (thorough: three) of 27 pieces of tokens in 20 places, also with consume-question in 5, and in each excerpt macro with 3 (where text is truncated 7) sets of options; all texts of one or two (thorough: three) printable characters in 6 places and, with none, in 4 settings of hooq.toml; tokens of 4 expressions (thorough: 6) at independent symbolic positions of a file, in any order; symbolic names",
  "longer sequences; exhaustion of the stack by deep nesting")

p("C36", "Bodies and initialisers at any depth are hooked, everything else is left",
  "Every function body, method body, default body of a trait, and initialiser of a static or constant is hooked in every kind of item (function, impl, trait, module, const, static), at any depth and in any order, under the settings in force there; types, patterns, generics, signatures (with the constant expressions in them), struct, enum and union definitions, use and extern declarations, and macro definitions come out as they were written.",
  ["programs"], "all items, nested to any depth",
  "The item kinds and their nesting are unbounded; tests annotate functions, and one impl and one trait.",
  ["walk", "impls", "root"], [("recursive walk over items", "walk"), ("entry", "impls")],
  [h("h_items", 9), h("h_cold", 41), h("h_heads", 18), h("h_items3", 9, tier="thorough")],
  "9 kinds of item inside each other, two (thorough: three) deep, with settings at any level; 41 places that hold types, patterns, generics or definitions; 18 heads of functions and items; symbolic names",
  "extern blocks with attributes inside; items that syn keeps as verbatim tokens")

p("C37", "The same input always expands to the same output",
  "An expansion is a function of the annotated item, the attribute, hooq.toml and the environment: neither its tokens nor the text of an error message (which mistake, in which order names are listed) depends on the order of any hash map, so that two builds of the same sources agree.",
  ["schedules", "configurations"], "all orders in which the process may walk its hash maps",
  "A hash map's order changes with every process; a test sees one order per run and passes or fails by luck.",
  ["flavor", "apply", "ctx", "meta", "render"], [("flavor tables", "flavor"), ("hooq.toml", "apply"), ("bindings", "ctx")],
  [h("h_det_bindings", 30), h("h_det_flavors", 6), h("h_det_presets", 27), h("h_det_mistakes", 12)],
  "the hash of three keys at a time (bindings, flavors of hooq.toml, sub flavors, presets) is chosen so that every one of their six orders occurs, in two patterns of buckets; 7 uses of bindings under 5 sets of names (that differ by case, by underscores, by zeros, by the order of letters), 18 of flavors, 25 of presets, 4 files with several mistakes",
  "orders of four or more keys relative to each other; addresses and time, which the code does not read", opt=0, topt=0)

p("C35", "hooq's own items are reached under the name hooq is imported by",
  "Every path in an expansion that leads to an item of hooq (HooqMeta, BindingPayload, the excerpt macros in the default hook and in the presets) starts with `::` and the name under which the manifest of the crate being compiled imports hooq (`-` as `_`), wherever the dependency is declared; with `::hooq` when it is imported under its own name or not found; and whatever project was expanded before in the same process.",
  ["configurations", "histories"], "all manifests, names, and histories of expansions",
  "The tests' manifests import hooq under its own name, so a path that ignores renaming is never seen to fail.",
  ["crate", "render", "presets", "flavor"], [("name lookup", "crate"), ("generated paths", "render")],
  [h("h_crate_renamed", 10), h("h_crate_plain", 9), h("h_crate_package", 2), h("h_crate_macros", 1), h("h_crate_history", 9), h("h_crate_history3", 27, tier="thorough")],
  "names `zq` + up to two symbolic characters (letters, digits, `-`, `_`) in 10 forms of Cargo.toml, 9 manifests without a renamed hooq, package names with two symbolic letters, and hooq-macros imported directly; 9 hooks that mention hooq's items; Cargo.toml is read by the real proc-macro-crate and toml_edit, executed symbolically; histories of two (thorough: three) expansions in three projects",
  "manifests of a workspace in another directory (cargo is not run); changes of Cargo.toml within one process")

p("C39", "Hooked code runs as the same code with its hooks written by hand",
  "A program under #[hooq], compiled by rustc, performs the same steps in the same order with the same values, propagates the same errors through the same hooks with the same $-variables, and ends with the same result as the unannotated program in which the hooks are written by hand; a hook runs only when its own target is evaluated, and what HooqMeta and the presets are told at run time (line, column, path, source, number, bindings) is true of the expression that failed.",
  ["inputs", "fault_sequences", "programs"], "all inputs of the program and all choices of the steps that fail, in all programs",
  "A hook in the wrong place changes behaviour only when one particular step fails, often after others succeeded; the tests run few functions on few failures.",
  ["walk", "hook", "render", "wmac", "meta", "ctx"], [("recursive walk", "walk"), ("hook insertion", "hook"), ("rewriting of macro arguments", "wmac")],
  [h("t_line", 2), h("t_loops", 2), h("t_closures", 2), h("t_match", 2), h("t_returns", 17), h("t_tails", 18), h("t_methods", 2), h("t_async", 2), h("t_macros", 2),
   h("t_options", 2), h("t_settings", 2), h("t_items", 2), h("t_state", 2), h("t_once", 2), h("t_empty", 2), h("t_meta", 12), h("t_names", 2), h("t_loc", 5), h("t_anyhow", 1)],
  "19 programs in twins/src, each covering a group of constructs; every input byte and every plan in which the f-th and the s-th of up to 41 steps, and every step given one particular value, fail; loops run at most as often as the program's own bounds allow",
  "programs other than these 19; the macro itself runs in rustc here and its output is what is executed symbolically (the other checks execute the macro)",
  crate="twins", opt=0, topt=0)

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
W='hooq-macros/src/impls/walker/mod.rs'
HE='hooq-macros/src/impls/walker/hook_expr.rs'
WM='hooq-macros/src/impls/walker/walk_macro.rs'
IP='hooq-macros/src/impls/inert_attr/parse.rs'
IC='hooq-macros/src/impls/inert_attr/context.rs'
MR='hooq-macros/src/impls/method/render/mod.rs'
MV='hooq-macros/src/impls/method/render/meta_vars.rs'
MM='hooq-macros/src/impls/method/mod.rs'
FI='hooq-macros/src/impls/utils/function_info.rs'
FL='hooq-macros/src/impls/flavor/mod.rs'
FP='hooq-macros/src/impls/flavor/flavor_path.rs'
TA='hooq-macros/src/impls/flavor/toml_load/apply.rs'
TL='hooq-macros/src/impls/flavor/toml_load/mod.rs'
RA='hooq-macros/src/impls/root_attr/mod.rs'
RP='hooq-macros/src/impls/root_attr/parse.rs'
SE='hooq-macros/src/impls/utils/source_excerpt.rs'
SM='hooq-macros/src/impls/utils/source_excerpt_macros.rs'
HH='hooq-helpers/src/lib.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Observing hooks never change what the program computes',
 'Annotating code with the attribute and a hook that only observes the value it is given (passing it on unchanged) leaves the behaviour of every program exactly as without the annotation: same results, same errors, same side effects, in the same order and each evaluated exactly as often. In addition the hook runs exactly once each time control evaluates a hooked operand, immediately after the operand is evaluated and before the `?`, `return` or end of the block acts on it.',
 ['programs','inputs'],'every well-typed program that uses `?`, `return` and tail results in any mix of functions, closures, async blocks, loops, matches, methods and nested items, on every input',
 'The tests run a few dozen fixed functions and compare expansion snapshots; none executes the same program with and without the annotation, so an evaluation that is duplicated, dropped, reordered or hidden behind a wrong precedence in another shape of program goes unseen.',
 [W,HE,MR],[('walk of the annotated item and in-place replacement of the hooked expression',W+' walk_item/walk_expr/handle_tail_expr'),('rendering of operand plus hook',MR+' render_expr_with_method')],
 ['results, panics and the trace of side effects of the compiled program'])
p('C02','Every `?` in annotated code is hooked exactly once',
 'With default targets and no skip in force, every `?` written in the annotated item has the hook applied exactly once, to the operand of that `?`, wherever the `?` stands: any expression position, any nesting of blocks, closures, async blocks, loops, matches and macros-free statements, and any function, method, trait default, module, constant or nested item inside the annotated one. Nothing that is not a `?` target is hooked as one, and the `?` itself stays in place.',
 ['programs'],'every syntactically valid item, with `?` at every expression position the language allows',
 'The walker tests contain one hand-written snapshot per expression kind; positions that no snapshot contains (and their combinations) are never looked at.',
 [W,HE],[('explicit match over all expression, statement and item kinds',W+' walk_expr, walk_stmt, walk_item'),('hook on the operand of `?`',W+' Expr::Try arm')],
 ['tokens that the attribute expands to'])
p('C03','return and tail values are hooked by the documented rule, and only then',
 'A value given to `return`, or standing as the tail of a block, is hooked exactly when it is a call whose last path segment is one of the configured always-hook names, or when the nearest enclosing function or closure declares a return type whose last path segment is a configured result type, the value is not a call to a configured ignored name, and (for tails) the block is the body of that function or closure. Tails of inner blocks, branches, match arms, loops and of nested functions are judged by their own block and their own function, a plain `return` is never hooked, and being in both name lists means hooked.',
 ['programs','configurations'],'every valid item and every setting of the three name lists and target switches',
 'Snapshots cover a handful of function shapes with default lists; the rule combines return type, call name, block kind, closure nesting and three configurable lists.',
 [W,IC,FI],[('tail handling',W+' handle_tail_expr'),('return handling',W+' Expr::Return arm'),('return type test',FI+' return_type_is_result'),('name lists',IC+' path_is_hook_call_like_err')],
 ['tokens that the attribute expands to'])
p('C04','skip and skip_all suppress exactly their documented region',
 'A skip-all mark suppresses every hook on the marked item, statement or expression and everything inside it; a skip mark suppresses hooks on the marked construct and inside it up to, but not into, nested scopes (blocks, branches, arms, loop bodies, function and closure bodies). Nothing outside the marked construct is affected, and the settings carried by other attributes still reach the hooks that are not suppressed.',
 ['programs'],'every valid item with skip and skip-all marks at any combination of accepted positions',
 'The skip tests are two fixed files; the region depends on the nesting of scopes between the mark and the target and on marks that interact.',
 [W,IC,IP],[('skip status inheritance and clearing at sub-scopes',IC+' for_sub_scope_context, is_skipped'),('reading the marks',IP+' extract_hooq_info_from_attrs')],
 ['tokens that the attribute expands to'])
p('C05','Setting attributes govern exactly the construct they are written on',
 'Every setting attribute applies to the construct it is written on and to everything inside that construct unless an inner construct sets the same field again; siblings and whatever follows are unaffected, fields that an attribute does not set keep the enclosing value, and within one construct the last attribute setting a field wins. All of the tool\'s own attributes are removed from the output and every other attribute survives unchanged, in place and in order.',
 ['programs','configurations'],'every valid item with any combination of setting attributes (method, targets, name lists, result types, macro switch, variable bindings) and foreign attributes at any nesting of accepted positions',
 'One snapshot per attribute exists; combinations, overriding at several depths, restoration after a nested override and attributes among foreign ones are not enumerated.',
 [IP,IC,W],[('attribute parsing and removal',IP+' extract_hooq_info_from_attrs'),('inheritance to descendants',IC+' HookContext::updated_by_inert_attr')],
 ['tokens that the attribute expands to'],
 [('settings context','the settings in force at a node, shared with the parent unless overridden',IC+' LocalContext')])
p('C06','Macro calls: Rust arguments are hooked, all others are left untouched',
 'Inside a function-like macro call whose arguments are a comma- or semicolon-separated list of expressions, or Rust items, the hooks are applied exactly as they would be outside it (no argument counts as a block tail), and separators and all other tokens are kept. If the arguments cannot be read as Rust code, or hooking in macros is switched off, the arguments are passed on token for token, and macro definitions are never changed.',
 ['programs','inputs'],'every macro call in statement, expression or item position with arbitrary token-tree arguments',
 'Arbitrary macro arguments form an unbounded token language; the tests contain about fifteen invocations.',
 [WM,W],[('speculative parse of the arguments and rewriting',WM+' handle_token_stream'),('switch',IC+' hook_in_macros')],
 ['tokens that the attribute expands to'])
p('C07','Expansion only adds the hook: removing it gives back the source',
 'In insertion mode the expansion is the original item with the configured method appended to each hooked operand as a whole, and in replacement mode each hooked operand is replaced by the configured expression with the operand substituted as a whole; removing the inserted text yields the original item, token for token except for the tool\'s own attributes and parentheses needed to keep the operand together. In particular visibility, generics, signatures, types, patterns, labels, comments-as-attributes, literals and untouched statements are preserved.',
 ['programs'],'every valid item, including items taken from real-world crates, and every hook method',
 'Snapshots pin complete outputs of small functions; losing or altering a rarely used piece of syntax, or binding the hook to only part of an operand, is visible only on inputs that contain it.',
 [W,MR,MM],[('in-place mutation of the syntax tree',W+' walk_item'),('rendering',MR+' render_expr_with_method')],
 ['tokens that the attribute expands to'])
p('C08','Position variables give the true position of the hooked target',
 'In every hook the line, column, path and file variables equal the position in the source file of that hook\'s own target: the `?` token, the `return` keyword, or the first token of the tail expression, with lines and columns counted from 1. This holds for every layout of the source, for nested and repeated targets, for targets in macro arguments, and regardless of the hook method and of hooks inside the target.',
 ['programs','inputs'],'every valid item in every textual layout (line breaks, indentation, non-ASCII text) and every hook method',
 'Tests print positions for a few fixed files with one layout each and mostly one target per line.',
 [MR,W],[('span of the target',W+' q_span in Try, Return and tail handling'),('literal rendering',MR+' meta_vars2token_stream')],
 ['position literals in the expansion'])
p('C09','Source, count and function variables describe the hooked target',
 'In every hook the source variable holds exactly the original tokens of its target as the user wrote them (before any inner hook, without the tool\'s attributes on the target itself), the count variable is the English ordinal of the target among the unskipped targets of its kind in the annotated item followed by the kind, and the function name and signature variables describe the innermost enclosing function, or the innermost closure together with the name of the function around it.',
 ['programs'],'every valid item with any nesting of functions, closures, async blocks and macros, any number of targets of each kind, and any mix of skips',
 'Ordinals, nesting and source text depend on everything that precedes and surrounds the target; tests show only small counts and shallow nesting.',
 [MR,FI,IC,W],[('counter',IC+' Counter'),('ordinal',MR+' get_count'),('function info',FI+' ClosureInfo::new, FunctionInfo::name, sig'),('source tokens taken before walking',W+' source_tokenstream')],
 ['literals and tokens in the expansion'],[('counter','number of unskipped targets of each kind seen so far in the item',IC+' Counter')])
p('C10','$expr and $so_far compose hooks as documented',
 'In a hook method the expression variable stands for the target\'s operand as one unit with its inner hooks already applied, everywhere and as often as it is written; the so-far variable stands for the method text that the nearest enclosing override replaced, itself expanded the same way, so that n nested overrides compose in order. Using the so-far variable where nothing was overridden, or an unknown variable, or `$` before something else, is a compile error and never silent.',
 ['programs','configurations'],'every chain of nested overrides of any length with insertion or replacement methods, at any mix of positions, and every placement of the variables inside nested token groups',
 'The tests chain at most a few methods at fixed depths.',
 [MR,IC],[('expansion of variables',MR+' expand_meta_vars'),('chain of overridden methods',IC+' LocalContextField::get_overridden_ancestor')],
 ['tokens that the attribute expands to, compile errors'])
p('C11','User variables resolve to the innermost definition, verbatim',
 'A user-defined variable used in a hook is replaced by the expression given in the innermost enclosing definition of that name (any of the accepted spellings, a flavor, or the configuration file), with the tokens as written; definitions do not leak to siblings. The all-bindings variable contains exactly the variables visible at the target, each with the text and the value of its innermost definition.',
 ['programs','configurations'],'every set of variable definitions over any nesting of constructs, flavors and configuration files, including shadowing and all spellings',
 'Shadowing and merging are tested with two or three names in fixed nestings.',
 [IC,IP,MR],[('merge with shadowing',IC+' merged_from_parent'),('spellings',IP+' extract_hooq_info_from_attrs'),('rendering',MR+' get_bindings_token_stream')],
 ['tokens that the attribute expands to'])
p('C12','Selecting a flavor by any spelling yields exactly that flavor',
 'The flavor named on the attribute (as a path, a dotted string or a double-colon string, including sub-flavors at any depth) determines all settings of the item, all spellings of the same flavor are equivalent, and the default flavor applies when none is named. Applying a flavor to a construct inside the item replaces all its settings (merging variables), applying it to one setting replaces only that setting, with the same result as writing that flavor\'s values out as attributes.',
 ['configurations','programs'],'every flavor defined by a configuration file or built in, every spelling, and every placement of whole or partial applications',
 'Tests apply a few flavors in fixed places.',
 [RA,RP,IP,FL,FP],[('lookup',FL+' get_flavor_inner'),('spelling',FP+' TryFrom'),('root attribute',RP+' parse_meta_path, parse_name_value'),('application on inner constructs',IP+' hooq_flavor and per-setting arms')],
 ['tokens that the attribute expands to'])
p('C13','The configuration file defines flavors by inheritance, in any order',
 'Each table of the configuration file is a flavor: a new top-level flavor starts from the built-in defaults, a table named like a built-in flavor overrides only the fields it sets, and a sub-table starts from its parent\'s resulting settings (all fields, including trait imports, and variables merged) and overrides only the fields it sets. The resulting flavors depend only on the content of the file, not on the order or style in which tables and keys are written.',
 ['configurations'],'every valid configuration file: any tree of tables, any subset of fields at each level, any order and TOML spelling, overriding built-in flavors or not',
 'A handful of fixed files exist; inheritance is a function of an arbitrary tree with optional fields.',
 [TA,TL,FL],[('application of tables',TA+' update_flavor_inner'),('schema',TL+' FlavorTable'),('built-in flavors',FL+' FlavorStore::new')],
 ['tokens that the attribute expands to under each flavor'])
p('C14','The empty flavor and disabled targets are the identity',
 'Under the empty flavor the annotated item is emitted unchanged apart from the removal of the tool\'s own attributes, whatever attributes of the tool it carries, provided none of them re-enables a target; the same holds for any flavor when no target kind is enabled.',
 ['programs','configurations'],'every valid item carrying any valid attributes of the tool',
 'One small file is tested under the empty flavor.',
 [W,HE,'hooq-macros/src/impls/flavor/presets/empty.rs'],[('target switch',HE+' hook_expr'),('preset','hooq-macros/src/impls/flavor/presets/empty.rs empty_flavor')],
 ['tokens that the attribute expands to'])
p('C15','Malformed settings are rejected as compile errors, valid ones never are',
 'Every malformed attribute, flavor name, target name, method or configuration file that would have to be used is reported as a compile error with a message from the tool: it is never silently ignored, never partly applied, and never crashes the macro. Every input that follows the documented formats is accepted.',
 ['inputs','configurations'],'every attribute text and configuration file, valid or mutated',
 'Only a few error messages are tested; the input language of attributes and configuration is open-ended.',
 [IP,RP,TA,FL,FP,MR],[('attribute errors',IP+' extract_hooq_info_from_attrs'),('root errors',RP+' RootAttribute::parse'),('configuration errors',TA+' update_flavor_inner'),('method errors',MR+' expand_meta_vars')],
 ['compiler diagnostics'])
p('C16','Expansion is deterministic',
 'The same source and configuration always expand to the same tokens and the same diagnostics, in every compiler process and irrespective of internal hashing order or of how many items were expanded before.',
 ['programs','configurations','schedules'],'every item and configuration, over repeated expansions in fresh processes and at different positions in one process',
 'A snapshot test compares one run per configuration with a stored output; nondeterminism that depends on hashing needs repeated runs over inputs with many keys.',
 [IC,FL,TL],[('sorting of the variables',IC+' available_bindings'),('process-wide configuration cache',FL+' TomlStore')],
 ['tokens that the attribute expands to, compiler diagnostics'],[('configuration cache','configuration file contents per package directory',FL+' LOADED_HOOQ_TOML')])
p('C17','The source printer reproduces the layout and the true line numbers',
 'The pretty-printed form of an expression contains all its tokens in order, with the line breaks, indentation and spacing of the source file (apart from the first line\'s indentation), and with line numbers switched on every printed line carries the number of the source line it shows, the first one marked differently from the others. Padding adds exactly the requested blank margin lines.',
 ['inputs'],'every expression in every layout, including nested delimiters, blank lines, comments, multi-line and raw literals and non-ASCII text',
 'About ten fixed layouts are tested.',
 [SE,SM],[('layout reconstruction',SE+' into_pretty_str_inner'),('line prefix',SE+' add_line_prefix'),('options',SM+' ExcerptMacroArgs')],
 ['string constant that the macro expands to'])
p('C18','The excerpting printer keeps its line budget and the right lines',
 'For a line budget N of at least two, the excerpt is the full pretty-printed text when that has at most N lines (or at most two), and otherwise consists of the first line, an ellipsis line and the last N-1 lines; for N=1 it is the last line, and N=0 is an error. The default is five lines with string truncation, line numbers and bottom padding, and every option changes only what it names.',
 ['inputs','configurations'],'every expression, every budget and every combination of options in any order',
 'A few budgets on a few expressions are tested.',
 [SE,SM],[('excerpt',SE+' into_excerpted_line_pretty_str'),('options',SM+' ExcerptMacroArgs')],
 ['string constant that the macro expands to'])
p('C19','String truncation shortens exactly the over-long lines, safely',
 'Truncating with limit n leaves every line of every string literal that has at most n characters unchanged and replaces longer ones by a prefix, two dots and a suffix of total length n (at least the two dots) taken from that line; counts are in characters, so no character is ever split. Nothing else in the expression changes.',
 ['inputs'],'every expression with string literals of any content, including multi-byte, escaped, raw, multi-line, and every limit',
 'Two ASCII examples are tested.',
 [SE,SM],[('truncation',SE+' TruncateStrFolder')],
 ['string constant or value that the macro expands to'])
p('C20','The one-line printer yields one line with the same tokens',
 'The one-line form of an expression is a single line that contains all of the expression\'s tokens in order, each source line trimmed and joined by one space, and equals the pretty-printed form when that is already one line; string literals are truncated only on request.',
 ['inputs'],'every expression in every layout',
 'A few examples are tested.',
 [SE,SM],[('joining',SE+' into_one_line_pretty_str')],
 ['string constant that the macro expands to'])
p('C21','A trailing ! consumes the question mark and nothing else',
 'With the consuming feature on, a method ending in `!` applied to a `?` target removes that `?` and leaves everything else as without the `!`; at returns and tails the `!` has no effect, nested targets are each treated by their own method, and hooks whose method has no trailing `!` keep their `?`. Methods from attributes and from the configuration file behave alike.',
 ['programs','configurations'],'every valid item and every mix of consuming and ordinary methods',
 'One fixed file is tested.',
 [MM,W],[('split of the trailing !',MM+' split_tail_exclamation'),('removal',W+' Expr::Try arm')],
 ['tokens that the attribute expands to'])
p('C22','Requested trait imports are emitted exactly, anonymously, before the item',
 'The expansion is preceded by one anonymous, warning-free import for each trait path requested on the attribute, in order, followed by one for each trait path of the selected flavor, and by nothing else; flavors applied inside the item add none. With the imports the methods of those traits are usable in hooks even if the surrounding code does not import them.',
 ['configurations','programs'],'every list of trait paths on the attribute (both spellings, several lists) and every flavor with trait imports',
 'A few fixed combinations are tested.',
 [RA,RP,TA],[('emission',RA+' trait_uses_token_stream'),('merge',RA+' RootContext::load')],
 ['items that the attribute expands to'])
p('C23','Annotated items are independent of one another',
 'The expansion of an annotated item depends only on the item itself, its attribute and the configuration: adding, removing, reordering or changing other annotated items in the crate (including ones that fail to expand or use other flavors) never changes it, except for the position information when it moves.',
 ['programs','histories'],'every sequence of annotated items expanded in one compiler process, in any order, including erroneous ones',
 'Each test file is expanded in one fixed order.',
 [IC,FL,'hooq-macros/src/impls/mod.rs'],[('fresh context per expansion','hooq-macros/src/impls/mod.rs hooq_impls'),('process-wide cache',FL+' LOADED_HOOQ_TOML')],
 ['tokens that the attribute expands to'],[('configuration cache','shared by all expansions in one process',FL+' LOADED_HOOQ_TOML')])
p('C24','The built-in flavors report every error at the right place and nothing more',
 'Under the default, log, tracing, anyhow, eyre and color-eyre flavors, whenever an error passes a hooked target at run time the flavor\'s report (one line block on standard error, one log record or event at the configured level, one context layer) is produced exactly once, carries the true path, line, column and source excerpt of the target, and the error itself is preserved underneath; when no error passes nothing is reported. Reports along a propagation path appear from the innermost target outwards.',
 ['programs','inputs'],'every program and input, for each built-in flavor and level sub-flavor',
 'One snapshot per flavor shows one failing path.',
 ['hooq-macros/src/impls/flavor/presets/log.rs','hooq-macros/src/impls/flavor/presets/tracing.rs','hooq-macros/src/impls/flavor/presets/anyhow.rs','hooq-macros/src/impls/flavor/presets/eyre.rs',FL],
 [('methods of the presets','hooq-macros/src/impls/flavor/presets/'),('default method',FL+' default_method')],
 ['captured standard error, log records, events and error chains of the compiled program'])
p('C25','The metadata object carries the target\'s data and typed variables',
 'The metadata value handed to a hook has line, column, path, file, source text, count and variables equal to those of its target; looking up a variable by name with its type gives its value, and with another type or an unknown name gives nothing, never a panic. The metadata is built lazily: when the hook does not ask for it, the variables\' expressions are not evaluated.',
 ['programs','inputs'],'every program using the metadata with any variables of any types, and every lookup',
 'The tests look up two or three variables of one type each.',
 [HH,MR,'hooq-macros/src/impls/flavor/presets/hook.rs'],[('lookup',HH+' HooqMeta::get_binding'),('construction',MR+' meta_vars2token_stream HooqMeta arm')],
 ['values seen by the hook at run time'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        assert d['statement'].count('. ')<=2,(d['id'],)
        f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))

LEX = ['src/lexer/main.rs', 'src/lexer/mod.rs']
GRAM = ['src/parser/parse.y', 'src/builder.rs']
MODEL_WHY = 'Quantifies over all programs: any nesting, neighbourhood, layout and spelling of the construct. The stable tests run no parser fixtures at all (lexer units and a few API tests), and even the fixtures sample one spelling each.'
MODEL_TECH = 'monitor against an executable reference model: random programs composed with their expected tree, run through the real parser, trees compared field by field online'
MODEL_NOTE = 'Held on every generated program of the run (counts in the evidence). Trusts the reference model of Ruby 3.1 syntax and of the documented node format; says nothing about spellings the model does not generate.'
def model(id, title, what, files, mech):
    prop(id, title, what, ['programs', 'inputs'],
        'every syntactically valid program containing the construct, in every context, nesting and layout', MODEL_WHY,
        files, mech, MODEL_TECH, MODEL_NOTE, observe=['ParserResult.ast', 'ParserResult.diagnostics'])

model('C12', 'String, symbol, regexp, char, xstring and %-literals decode exactly',
    'Every valid string, symbol, regexp, character, backtick and %-style literal (any delimiters, nested brackets, escapes, interpolation, adjacent-string concatenation, any encoding-valid bytes) is accepted and yields the documented node whose value is exactly the bytes Ruby would produce and whose begin, end and whole source ranges are exact. Interpolated code becomes the same tree it would be outside of the literal.',
    ['src/lexer/parse_string.rs', 'src/lexer/parse_percent.rs', 'src/lexer/parse_qmark.rs', 'src/str_term.rs', 'src/builder.rs'],
    [('string tokenizer and escapes', 'src/lexer/parse_string.rs'), ('percent literals', 'src/lexer/parse_percent.rs'), ('literal builders', 'src/builder.rs')])
model('C13', 'Heredocs yield exact contents, dedentation and source ranges',
    'Every heredoc (bare, dash or squiggly; raw, interpolating or backtick; several per line; inside any expression) yields exactly the text between its opening line and its terminator, with escapes, line continuations, CRLF and squiggly dedentation applied as in Ruby, and exact ranges for the opener, body and terminator. The code around and after the heredoc parses as if the body were not there.',
    ['src/lexer/parse_heredoc.rs', 'src/lexer/parse_string.rs', 'src/builder.rs', 'src/str_term.rs'],
    [('heredoc lexing', 'src/lexer/parse_heredoc.rs'), ('dedentation', 'src/builder.rs')])
model('C15', 'Operators bind by Ruby precedence and associativity',
    'Every expression built from unary, binary, ternary, range, logical, assignment-like, not, defined? and modifier operators is grouped exactly by Ruby precedence and associativity, and yields the documented node with exact operator and expression ranges. This holds whatever the operands, spacing and line breaks are.',
    GRAM + LEX, [('precedence declarations and rules', 'src/parser/parse.y'), ('binary/unary builders', 'src/builder.rs'), ('operator lexing by lexer state', 'src/lexer/main.rs')])
model('C16', 'Identifiers resolve to variables or calls by scope',
    'Each bare identifier is a local variable exactly when an assignment, parameter or pattern binding of that name precedes it in the scopes visible to it, and otherwise a method call; instance, class, global, special and numbered variables, constants and pseudo-variables yield their own documented nodes with exact names and ranges. Scope boundaries (class, module, def, top level) hide outer locals, blocks and lambdas see them.',
    ['src/static_environment.rs', 'src/variables_stack.rs', 'src/max_numparam_stack.rs', 'src/builder.rs', 'src/lexer/parse_ident.rs', 'src/lexer/parse_gvar.rs', 'src/lexer/parse_atmark.rs'],
    [('scoped variable table', 'src/static_environment.rs'), ('accessible', 'src/builder.rs'), ('identifier lexing', 'src/lexer/parse_ident.rs')])
model('C17', 'Method calls, arguments, blocks and lambdas parse to the documented tree',
    'Every method call form (receiver or none, `.`/`&.`/`::`, with or without parentheses, splats, keywords, block pass, forwarding, index, super, yield, command calls) and every block or lambda (braces or do/end, every parameter shape, numbered parameters, shadow locals) yields the documented node with the right receiver, name, arguments in order and exact ranges. A block attaches to the call Ruby attaches it to.',
    GRAM + ['src/lexer/main.rs', 'src/stack_state.rs'], [('call rules', 'src/parser/parse.y'), ('call builders', 'src/builder.rs'), ('do/brace disambiguation stacks', 'src/stack_state.rs')])
model('C18', 'Method, class and module definitions and parameters parse exactly',
    'Every definition (methods incl. endless, singleton and operator names; classes, modules, singleton classes; alias, undef, BEGIN/END) yields the documented node with the right name, superclass or receiver, parameters of every kind in order with their defaults, body with rescue/else/ensure, and exact ranges.',
    GRAM + ['src/context.rs', 'src/current_arg_stack.rs'], [('definition rules', 'src/parser/parse.y'), ('definition builders', 'src/builder.rs')])
model('C19', 'Conditionals, loops, case, begin/rescue and jumps parse exactly',
    'Every control-flow form (if/unless/ternary/modifiers, while/until incl. begin..end loops, for, case/when, begin/rescue/else/ensure, return/break/next/redo/retry, and/or/not, flip-flops and regexp conditions) yields the documented node with its branches in the right roles and exact keyword and expression ranges.',
    GRAM + ['src/lexer/parse_ident.rs', 'src/stack_state.rs'], [('statement rules', 'src/parser/parse.y'), ('control flow builders', 'src/builder.rs'), ('modifier keyword lexing', 'src/lexer/parse_ident.rs')])
model('C20', 'Pattern matching parses to the documented tree',
    'Every pattern (values, ranges, pins, captures, alternatives, arrays, find patterns, hashes, constants with arguments, nil and rest patterns, guards) in case/in, `=>` and `in` forms yields the documented node with exact ranges, and every name it binds is a local variable afterwards.',
    GRAM + ['src/variables_stack.rs'], [('pattern rules', 'src/parser/parse.y'), ('pattern builders', 'src/builder.rs')])
model('C21', 'Assignments of every kind parse to the documented tree',
    'Every assignment (simple, operator, logical, multiple with splats and nesting, to variables, constants, indexes and attributes, with array, splat, command or rescue-modifier right sides) yields the documented node with targets and values in order and exact ranges.',
    GRAM, [('assignment rules', 'src/parser/parse.y'), ('assignable/op_assign/multi_assign builders', 'src/builder.rs')])
model('C22', 'Arrays, hashes, ranges, constants and program structure parse exactly',
    'Every array, hash (all key styles, shorthand, double splat), range, constant path, pseudo-variable, sequence of statements, grouping and empty body yields the documented node with its elements in order and exact ranges.',
    GRAM, [('literal and primary rules', 'src/parser/parse.y'), ('collection builders', 'src/builder.rs')])
prop('C01', 'Parsing any bytes terminates normally with a usable result',
    'For every byte string given as source, under every combination of options, parsing terminates, never panics, aborts or overflows, and returns a result whose tree, tokens, comments, magic comments and diagnostics can all be inspected, rendered and dropped. The standalone tokenizer likewise terminates normally on every byte string.',
    ['inputs'], 'every byte string, valid Ruby or not, of any shape; every option combination',
    'Tests feed a handful of mostly valid programs. The lexer is full of index arithmetic, expect() and unreachable!() whose reachability depends on arbitrary byte sequences, broken programs, error recovery and nesting.',
    ['src/parser/parse.y', 'src/builder.rs'] + LEX + ['src/lexer/parse_string.rs', 'src/lexer/parse_heredoc.rs', 'src/lexer/parse_numeric.rs', 'src/lexer/parse_magic_comment.rs', 'src/source/buffer.rs'],
    [('panic sites and index arithmetic', 'src/lexer'), ('unreachable!/expect in builders', 'src/builder.rs'), ('error recovery', 'src/parser/parse.y')],
    'crash, panic, overflow and hang monitor over hostile inputs: worker processes built with debug assertions and overflow checks; the parent attributes a death or a hang to the input that was announced before the call and confirms it by replay',
    'Held on every input of the run. A hang is judged by CPU time of the worker, not by wall clock.',
    observe=['process exit status', 'panics caught at the API boundary', 'ParserResult'])
MIX_WHY = 'Every node kind carries up to eight hand-computed ranges, and they depend on neighbours, layout, CRLF, heredocs, multibyte text and error recovery. Unit tests look at a few ranges of a few spellings.'
MIX_TECH = 'invariant monitor over every returned tree: generated, mutated and spliced programs run through the real parser, each node of each tree judged online against '
prop('C04', 'Source ranges of nodes are in bounds, nested and ordered',
    'Every source range in a returned tree begins no later than it ends and lies inside the source, also when the program was rejected. In accepted programs it never splits a character, ranges and children lie inside their node, siblings are in source order without overlap, and a node spans exactly its parts (heredoc bodies aside).',
    ['programs', 'inputs'], 'every input and every node of its tree', MIX_WHY,
    ['src/builder.rs', 'src/loc_ext.rs', 'src/parser/parse.y'] + LEX, [('range computation', 'src/builder.rs'), ('token ranges', 'src/lexer/main.rs'), ('joining ranges', 'src/loc_ext.rs')],
    MIX_TECH + 'bounds, nesting, ordering and span rules', 'Held on every node of every tree observed in the run.', observe=['ParserResult.ast', 'ParserResult.input'])
prop('C05', 'The source at a range is the text the node says it is',
    'In every accepted program the source text at each keyword, operator, delimiter, separator and name range of each node is exactly what that role demands: `def` for the keyword of a method definition, matching brackets, the variable, method or constant name the node carries, the digits of a number, the letters of regexp options. An optional range is present exactly when the thing it stands for is.',
    ['programs', 'inputs'], 'every accepted input and every node of its tree', MIX_WHY,
    ['src/builder.rs', 'src/parser/parse.y'] + LEX, [('range computation', 'src/builder.rs'), ('token values and ranges', 'src/lexer/main.rs')],
    MIX_TECH + 'the source text its ranges point at', 'Held on every node of every accepted tree observed in the run.', observe=['ParserResult.ast', 'ParserResult.input'])
prop('C02', 'Memory is fully released and bounded by the size of the source',
    'After a parse result (or a standalone lexer, or the pieces a result was taken apart into) is dropped, every byte allocated for it has been released, whatever the input was. Peak and total memory of a parse are bounded by a constant plus a constant per byte of source, so twice the program needs at most about twice the memory.',
    ['inputs', 'histories'], 'every byte string, every way of consuming the result, any number of parses',
    'Tokens and errors live in a hand-written pool that hands out raw slots, and token buffers, heredocs and error recovery move them around; a leak or a quadratic copy shows in no assertion and only for particular inputs.',
    ['src/parser/parse.y', 'src/lexer/main.rs', 'src/token_buf.rs', 'src/source/buffer.rs', 'src/variables_stack.rs'],
    [('token and error pools', 'src/parser/parse.y'), ('token buffer', 'src/token_buf.rs')],
    'allocation accounting: a counting global allocator watches every block of the worker thread around each real parse and judges leaks, peak, total and growth online',
    'Held on every input of the run; the bounds are generous multiples of what was measured, so only a leak or a change of growth order is reported.',
    observe=['global allocator events (alloc, dealloc, realloc)'])
prop('C03', 'The result depends only on the source and the options that say so',
    'Parsing the same source gives the same tree, tokens, comments, magic comments and diagnostics every time, in any thread, concurrently with other parses, after any history of other parses, given as bytes or string, and however parser objects are interleaved. The buffer name and the decision not to record tokens change nothing but the name and the token list.',
    ['inputs', 'histories', 'schedules'], 'every source, every pair of option sets, every history and interleaving of parses in the process',
    'Unit tests parse each program once in a fresh parser on one thread; hidden global or thread-local state, uninitialised pool slots or an option leaking into parsing only show across two runs.',
    ['src/parser/parse.y', 'src/lexer/main.rs', 'src/parser_options.rs', 'src/parser_result.rs', 'src/static_environment.rs'],
    [('options', 'src/parser_options.rs'), ('token recording', 'src/parser/parse.y'), ('shared context', 'src/context.rs')],
    'differential monitor: every result is compared in full with that of a second real run under a changed history, schedule or option (repetition, other parses before and between, four threads at once, other name, no tokens, decoder installed)',
    'Held on every pair of runs observed. Thread interleavings are those the operating system produced.',
    observe=['ParserResult (all fields)'])
prop('C06', 'Recorded tokens account for the source, in order and exactly',
    'The recorded tokens are in source order, do not overlap, lie inside the source and end with the end-of-input token; together with whitespace, comments, line continuations, heredoc bodies and what follows `__END__` they cover every byte of an accepted program. Each token has the spelling its kind stands for, and its value is what the source says there.',
    ['programs', 'inputs'], 'every accepted program (ordering and bounds also for rejected ones)',
    'Any lookahead, push-back, heredoc jump or end-of-input case can drop, duplicate or displace a token, and the tree may still look right. Unit tests check a few short inputs.',
    LEX + ['src/token.rs', 'src/token_buf.rs', 'src/source/buffer.rs', 'src/lexer/parse_heredoc.rs', 'src/lexer/parse_ident.rs'],
    [('token creation', 'src/lexer/main.rs'), ('input buffer, push back', 'src/source/buffer.rs'), ('token recording', 'src/parser/parse.y')],
    'trace conformance: the recorded token stream is the trace; an online checker judges order, cover of the source and spelling of every token of every run', 'Held on every token observed in the run.',
    observe=['ParserResult.tokens', 'ParserResult.input'])
prop('C07', 'Every comment is reported once, at its place, and nothing else is',
    'The reported comments are exactly the comments of the source, in order, each once, of the right kind (inline or `=begin`..`=end` document) and with its exact range. Text that only looks like a comment (in strings, heredocs, regexps, word lists, character literals, after `__END__`) is never reported.',
    ['programs', 'inputs'], 'every program and every placement of comments in it',
    'Comments are recorded as a side effect in several lexer branches that look ahead, skip lines and continue method chains; tests look at single comments.',
    LEX + ['src/source/comment.rs', 'src/source/buffer.rs'], [('comment recording', 'src/lexer/main.rs'), ('comment kinds', 'src/source/comment.rs')],
    'conservation monitor: comments planted at known positions of generated programs against the recorded list, and gaps between tokens of accepted hostile inputs against it',
    'Held on every comment planted or observed in the run.', observe=['ParserResult.comments', 'ParserResult.tokens'])
prop('C08', 'Magic comments are recognised exactly where Ruby recognises them',
    'Every magic comment (encoding or coding, frozen_string_literal, warn_indent, shareable_constant_value; plain or emacs form; any case, dashes or underscores) that Ruby would honour is reported with its kind and exact key and value ranges, in order. Nothing else is reported: wrong places, unknown names, invalid values, ordinary comments and code.',
    ['inputs'], 'every file header and every comment in it',
    'The recogniser is a hand-written scanner over bytes with several forms and positions; tests cover one spelling each.',
    ['src/lexer/parse_magic_comment.rs', 'src/source/magic_comment.rs', 'src/source/buffer.rs'] + LEX,
    [('magic comment scanner', 'src/lexer/parse_magic_comment.rs'), ('encoding recogniser', 'src/source/buffer.rs')],
    'conformance monitor: files composed with known magic comments and look-alikes, the reported list compared online with the known one', 'Held on every file of the run.',
    observe=['ParserResult.magic_comments'])
prop('C09', 'Declared encodings are decoded once, by the decoder, or reported',
    'A source that declares a foreign encoding is handed to the decoder exactly once, with that encoding name and the unchanged bytes; its output is what is parsed and what all ranges refer to. Without a decoder, or when it fails, exactly one error at the encoding name is reported, the source is kept and nothing is parsed; UTF-8, ASCII and binary never reach the decoder.',
    ['inputs', 'faults'], 'every source and header, every decoder (longer, shorter, failing, absent)',
    'Decoding happens in the middle of reading the first lines and replaces the whole input; tests use one decoder and one file.',
    ['src/source/decoder.rs', 'src/source/input.rs', 'src/source/buffer.rs', 'src/source/decoded_input.rs', 'src/lexer/mod.rs', 'src/lexer/parse_magic_comment.rs'],
    [('decoding', 'src/source/decoder.rs'), ('encoding header', 'src/source/buffer.rs')],
    'event monitor with fault injection: recording decoders log every call (name, bytes, outcome) and fail, shrink or grow the text on purpose; call log and result judged online',
    'Held on every file and decoder of the run.', observe=['decoder calls', 'ParserResult'])
prop('C10', 'Every position maps to the right line and column and back',
    'For every text and every position in it, the reported line and column are the number of line breaks before it and its distance from the last one; positions outside have none. The lines of the text tile it exactly, and the source of a range is exactly those bytes.',
    ['inputs'], 'every text, every position and every range',
    'Off-by-one errors sit at line ends, the last line, empty lines and the end of the text; tests look at three positions.',
    ['src/source/decoded_input.rs', 'src/source/source_line.rs', 'src/source/input.rs', 'src/loc_ext.rs'], [('line map', 'src/source/decoded_input.rs'), ('line splitting', 'src/source/input.rs')],
    'reference monitor: every position and many ranges of every text judged online against a direct count over the bytes', 'Held on every position judged in the run.',
    observe=['DecodedInput::line_col_for_pos', 'DecodedInput::lines', 'Loc::source'])
prop('C11', 'Diagnostics point into the source and render faithfully',
    'Every error and warning has a range inside the source and a message, rejected programs have at least one error, and rendering names the file, line and column of the range, quotes the right line and marks exactly the columns of the range. Rendering never fails.',
    ['inputs'], 'every input and every diagnostic it causes',
    'Diagnostics of broken input are created deep in error paths with hand-computed ranges, at the end of input in particular; tests render one.',
    ['src/error/diagnostic.rs', 'src/error/level.rs', 'src/builder.rs', 'src/parser/parse.y'] + LEX,
    [('rendering', 'src/error/diagnostic.rs'), ('messages', 'src/error/mod.rs'), ('error ranges', 'src/lexer/main.rs')],
    'invariant monitor over every diagnostic of hostile runs, the rendered text compared with a reference rendering', 'Held on every diagnostic observed in the run.',
    observe=['ParserResult.diagnostics', 'Diagnostic::render'])
prop('C14', 'Numeric literals are recognised exactly',
    'A text is accepted as a number exactly when Ruby accepts it (prefixes, underscores, fractions, exponents, rational and imaginary suffixes, signs), the kind of number is the right one, its value is the source text and its range exact. Malformed numbers are reported as errors and never silently split, shortened or changed.',
    ['inputs'], 'every character sequence that starts like a number, in every context and at the end of input',
    'The scanner has dozens of branches with push-back; tests cover one literal per branch, not their combinations nor the end of input. All texts of up to four characters are covered here.',
    ['src/lexer/parse_numeric.rs', 'src/builder.rs', 'src/lexer/main.rs', 'src/token_buf.rs'], [('number scanner', 'src/lexer/parse_numeric.rs'), ('numeric builders', 'src/builder.rs')],
    'reference monitor: an independent recogniser of the numeric grammar judges the outcome of the real lexer and parser on all short texts and random long ones', 'All texts of up to four letters of the numeric alphabet, and every random literal of the run.',
    observe=['ParserResult.ast', 'ParserResult.tokens', 'ParserResult.diagnostics'])
prop('C23', 'Invalid programs are rejected, for the right reason, at the right place',
    'A program that breaks a rule of Ruby (syntax, forbidden assignments, void values, repeated or reserved parameter and pattern names, circular defaults, misplaced definitions, jumps and blocks, malformed or unterminated literals and names) is never accepted: the first reported error names that rule and points at the offending text. This holds wherever the construct is nested and whatever surrounds it, and near misses that do not break the rule are accepted.',
    ['programs', 'inputs'], 'every invalid construct in every surrounding, and every valid near miss',
    'A validation that is dropped, narrowed or moved leaves all valid programs unaffected, so no test of valid programs notices; tests sample each diagnostic at most once, at top level.',
    ['src/parser/parse.y', 'src/builder.rs', 'src/context.rs', 'src/current_arg_stack.rs', 'src/max_numparam_stack.rs', 'src/variables_stack.rs', 'src/static_environment.rs'] + LEX + ['src/lexer/parse_string.rs', 'src/lexer/parse_percent.rs', 'src/lexer/parse_heredoc.rs'],
    [('semantic checks in actions', 'src/parser/parse.y'), ('void_value, assignable, duplicate checks', 'src/builder.rs'), ('context flags', 'src/context.rs'), ('numbered parameters', 'src/max_numparam_stack.rs')],
    'monitor against a catalog of rules: composed invalid programs and valid near misses run through the real parser; acceptance, first error kind and its range judged online',
    'Held on every composed program of the run. Rules outside the catalog are not judged.', observe=['ParserResult.diagnostics'])
prop('C24', 'Layout that Ruby ignores changes nothing but positions',
    'Adding blank lines, comments or `=begin` documents in front of, between or behind statements, turning line ends into CRLF, widening the blanks between two tokens or breaking a line with a backslash leaves an accepted program accepted, with the same tree in which only the source ranges move along. Lines put in front of a rejected program leave it rejected with the same diagnostics, moved.',
    ['programs', 'inputs'], 'every program and every place where such layout may be inserted',
    'Whether a blank or a line break matters is decided by lexer state, pushed-back characters and line bookkeeping at every token; tests try each construct in one layout.',
    LEX + ['src/lexer/parse_heredoc.rs', 'src/lexer/parse_string.rs', 'src/source/buffer.rs', 'src/parser/parse.y', 'src/builder.rs'],
    [('whitespace, comments and line ends', 'src/lexer/main.rs'), ('CRLF and line handling', 'src/source/buffer.rs'), ('heredoc bodies under CRLF', 'src/lexer/parse_heredoc.rs')],
    'differential (metamorphic) monitor: every program runs twice through the real parser, once with its layout changed; the second result must be the first with positions moved',
    'Held on every pair of runs observed. Says nothing about layout both runs get wrong in the same way; the reference models do.',
    observe=['ParserResult.ast', 'ParserResult.diagnostics'])
prop('C26', 'Incomplete programs are never accepted',
    'A program that ends while a construct is open (an unfinished definition, block, bracket, literal, interpolation, heredoc or control structure), or in which a closing word or bracket closes nothing, is rejected with an error. This holds wherever the cut is and whatever surrounds it.',
    ['programs', 'inputs'], 'every program and every point inside of an open construct at which it can end',
    'The end of input is handled separately in every lexer mode and in error recovery; tests cut a few programs at one place.',
    LEX + ['src/lexer/parse_heredoc.rs', 'src/lexer/parse_string.rs', 'src/lexer/parse_percent.rs', 'src/parser/parse.y'],
    [('end of input', 'src/lexer/main.rs'), ('unterminated literals', 'src/lexer/parse_string.rs'), ('unterminated heredocs', 'src/lexer/parse_heredoc.rs'), ('error reporting', 'src/parser/parse.y')],
    'monitor over programs cut off inside of a construct known from their composition: the real parser must report an error', 'Held on every cut observed.',
    observe=['ParserResult.diagnostics'])
prop('C28', 'Warnings are given exactly where they are due',
    'Constructs that Ruby warns about (ambiguous prefixes, operators, regexps and ternaries, repeated hash keys, chained comparisons, END in a method, huge `$n`, `...` and `if` at the end of a line, parentheses after a method name, lone carriage returns, invalid character syntax) yield that warning at the offending text, wherever they are nested; near misses yield none, and a warning never rejects a program.',
    ['programs', 'inputs'], 'every dubious construct in every surrounding, and every near miss',
    'Warnings leave the tree alone, so no comparison of trees notices a missing, misplaced or unwarranted one; they depend on lexer state, spacing and scope at the spot.',
    LEX + ['src/lexer/parse_qmark.rs', 'src/lexer/parse_percent.rs', 'src/lexer/parse_string.rs', 'src/parser/parse.y', 'src/builder.rs'],
    [('ambiguity warnings', 'src/lexer/main.rs'), ('duplicate keys, huge references', 'src/builder.rs'), ('END in methods, comparisons, words at the end of a line', 'src/parser/parse.y')],
    'monitor against a catalog of dubious constructs composed into random programs, and against what the returned tree itself implies; reported warnings judged online, both ways',
    'Held on every composed program and every tree of the run. Warnings outside the catalog are not judged.', observe=['ParserResult.diagnostics', 'ParserResult.ast'])
prop('C25', 'Variables declared beforehand count exactly like assigned ones',
    'Through every history of declare, extend and unextend calls on any of its handles, a StaticEnvironment reports exactly the names declared in the current scope and, for dynamic scopes, the ones around it. A parser whose environment was given names beforehand parses every program as if those names had been assigned in front of it, and the environment it leaves behind names exactly its top-level variables, so a program parsed piece by piece means what it means as a whole.',
    ['histories', 'programs'], 'every history of operations; every program and every set of declared names; every way to split a program between statements',
    'Tests declare one name and look it up once. Consoles and eval rely on arbitrary histories, nested scopes and on the parser leaving the environment balanced.',
    ['src/static_environment.rs', 'src/parser/parse.y', 'src/builder.rs', 'src/lexer/main.rs'],
    [('scopes', 'src/static_environment.rs'), ('scope handling of definitions and blocks', 'src/parser/parse.y'), ('identifiers', 'src/builder.rs')],
    'stateful monitor: random histories on the real environment against a model of nested sets, and differential runs of the real parser (declared against assigned, piecewise against whole)',
    'Held on every history and every pair of runs observed.', observe=['StaticEnvironment.is_declared', 'ParserResult.ast', 'ParserResult.diagnostics'])
prop('C29', 'The standalone tokenizer agrees with the parser and knows the reserved words',
    'Used on its own, the lexer yields tokens that lie inside the source and whose accessors all tell the same value; where no grammar context is needed they are exactly the tokens the parser records. Exactly the 41 reserved words of Ruby are recognised, by lookup and by tokenizing, in every position, and a declared name changes how what follows it is tokenized exactly as a variable does.',
    ['inputs'], 'every byte string; every word; every set of declared names',
    'The tests tokenize some hundred short snippets from hand-set lexer states; the table of words is generated and looked up by length and binary search, where one misplaced entry hides others.',
    LEX + ['src/lexer/parse_ident.rs', 'src/reserved_words/mod.rs', 'src/token.rs', 'src/static_environment.rs', 'codegen/rust/reserved_words.rs'],
    [('tokenize_until_eof', 'src/lexer/main.rs'), ('word lookup', 'src/reserved_words/mod.rs'), ('token accessors', 'src/token.rs')],
    'differential monitor of the real lexer against the real parser, and against an independent table of words and of what may follow a variable', 'Held on every token observed.',
    observe=['Lexer::tokenize_until_eof', 'reserved_word', 'Token accessors'])

prop('C27', 'The parse executable shows what the library returns',
    'For every Ruby program given with `-e` and every set of files matched by `--glob`, the `parse` executable visits each program exactly once per repetition, in path order, and prints what the library returns for it in the requested form: the tree, the tree with its ranges, the diagnostics, or nothing. Diagnostics of a program that has them are shown with the default printer. Bad usage is refused with the usage text and a failing status, and no input makes the executable crash where the library does not.',
    ['inputs', 'programs'], 'every program, every set of files, every option combination of the executable',
    'No test runs the executable at all.',
    ['src/bin/parse.rs', 'src/bin/helpers/parse.rs', 'src/bin/helpers/printer.rs', 'src/bin/helpers/input_to_parse.rs', 'src/bin/helpers/repeater.rs', 'src/parser_options.rs'], [('command line', 'src/bin/parse.rs'), ('arguments and files', 'src/bin/helpers')],
    'output monitor: the executable, rebuilt from the tree, is run on generated command lines in a scratch directory; its exit status and output are compared byte by byte with what the library returns for the same programs in the monitor',
    'Held on every command line of the run. Texts of usage messages are not compared word by word.', observe=['stdout', 'stderr', 'exit status', 'ParserResult'])
prop('C30', 'No use of the library touches memory it does not own',
    'Whatever lexers, parsers, tokens, results and environments are created, moved, cloned, shared, used and dropped, in whatever order, in any thread and on any input: no memory is read or written after it was freed, freed twice, or accessed out of bounds. Tokens and results stay valid after the lexer or parser that made them is gone.',
    ['histories', 'inputs'], 'every input and every order of creating, moving, using and dropping objects of the public interface',
    'The crate forbids unsafe code, but its tokens live in a pool behind raw pointers whose validity rests on the order in which fields and values are dropped or replaced; a wrong order runs by luck in tests.',
    LEX + ['src/parser/parse.y', 'src/parse_value.rs'], [('token pool and its owner', 'src/lexer/main.rs'), ('values on the parser stack', 'src/parser/parse.y'), ('values taken out of the pool', 'src/parse_value.rs')],
    'AddressSanitizer: library, dependencies and workload rebuilt with -Zsanitizer=address; random histories of API use in worker processes, a report ends the worker and is attributed to the announced case and confirmed by replay',
    'Held in every history of the run. Reads of uninitialised memory and aliasing rules are not observed by this sanitizer.', observe=['AddressSanitizer reports', 'process exit status'])

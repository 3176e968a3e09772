#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
MOD = open(HERE + '/harness/src/checks/mod.rs').read()
HAVE = {m.upper() for m in re.findall(r'\bc\d\d\b', MOD)}

K = 'koopa/src/'
L = 'libkoopa/src/'


def P(id, title, statement, over, qtext, why, files, mech, tech, note):
    assert len(title) <= 80, title
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=files, mech=mech, tech=tech, note=note)


PROPS = [
    P('C01', 'Text form and in-memory form are mutually inverse',
      'Parsing a valid Koopa IR text and printing the result gives a text that parses again into the '
      'same program: the same globals, functions, signatures, basic blocks, parameters, instructions, '
      'operands, types, names and order (temporary names and the relative order of blocks aside, which '
      'follow the breadth-first order from the entry). Printing that program once more gives exactly the '
      'same text.',
      ['programs', 'inputs'],
      'every valid program, in every legal layout of its text (white space, comments, optional parts)',
      'The tests print a handful of hand-written programs; the pairing of parser and printer must hold '
      'for every construct in every position and combination.',
      [K + 'front/parser.rs', K + 'front/builder.rs', K + 'back/koopa.rs', K + 'back/generator.rs'],
      [('Parser::parse_*', K + 'front/parser.rs'), ('Builder', K + 'front/builder.rs'),
       ('Visitor', K + 'back/koopa.rs'), ('NameManager', K + 'back/generator.rs')],
      'property-based testing: generated programs, parse/print round trip and fixpoint against a model',
      'Round trip compared structurally with an independent model of the generated program.'),
    P('C02', 'The front end ends normally on every input',
      'For every text given to the front end it ends without a panic, a crash or an endless loop, and '
      'returns either a program that is internally consistent or an error; it returns an error exactly '
      'if at least one error was reported. Giving it the same text again has the same outcome.',
      ['inputs'],
      'every byte string as input: random bytes, random tokens, mutated and truncated programs, long '
      'repetitions (deep recursive nesting aside)',
      'The tests give the parser a few well-formed programs and a few errors; crashes and hangs sit in '
      'error recovery and in odd characters and positions.',
      [K + 'front/lexer.rs', K + 'front/parser.rs', K + 'front/builder.rs', K + 'front/driver.rs',
       K + 'front/span.rs'],
      [('error recovery', K + 'front/parser.rs'), ('MAX_ERR_NUM', K + 'front/driver.rs'),
       ('Span::log_*', K + 'front/span.rs')],
      'fuzzing: random bytes, token soup and mutated programs; oracle = termination, consistency, '
      'error-count agreement',
      'A panic, a fatal signal, or 40 s of processor time on a small input counts as a violation.'),
    P('C03', 'Text is elaborated into exactly the program it denotes',
      'The program built from a valid text has exactly the written globals, functions, blocks, '
      'instructions, operands, constants, types and names in the written order, with every reference '
      'resolved to the definition of that name, and with consistent users and parents. How the text is '
      'laid out (white space, comments, line breaks, optional syntax) does not change the program.',
      ['programs', 'inputs'],
      'every valid program text, in every layout',
      'The tests check that some texts are accepted; not what they turn into.',
      [K + 'front/parser.rs', K + 'front/builder.rs', K + 'front/lexer.rs'],
      [('Builder', K + 'front/builder.rs'), ('value/type resolution', K + 'front/builder.rs')],
      'property-based testing: generated programs rendered as text; oracle = the generating model',
      'The program is read back through the public API and compared with the model it was written from.'),
    P('C04', 'The front end accepts exactly the language',
      'A text is accepted if and only if it follows the grammar and the semantic rules of Koopa IR: '
      'names defined once and before use, operand and argument types and counts that match, array '
      'lengths and aggregate shapes that fit, blocks that end in exactly one terminator, entry blocks '
      'without predecessors, matching return types. A rejected text has at least one error reported and '
      'yields no program.',
      ['inputs', 'programs'],
      'every token sequence near a valid program (mutations of tokens, names, types, counts) and every '
      'valid program',
      'The tests contain a few rejected snippets; each rule must hold for each construct in each position.',
      [K + 'front/parser.rs', K + 'front/builder.rs'],
      [('semantic checks', K + 'front/builder.rs'), ('grammar', K + 'front/parser.rs')],
      'property-based testing: mutated programs, differential against an independent reference front end',
      'The reference front end was written from the documentation and validated on 900k programs.'),
    P('C05', 'Data-flow graph edits keep definitions and uses in step',
      'After any sequence of creating, replacing, updating and removing values and basic blocks of a '
      'function, the users recorded for every value and basic block are exactly the values whose '
      'operands (or targets) mention it, and every value has the data, type and name it was last given.',
      ['histories'],
      'every sequence of legal edits of a data-flow graph, over all instruction kinds and operand '
      'positions, including repeated operands, self-replacement and global operands',
      'The tests build straight-line code; stale or missing users appear only after particular '
      'sequences of edits.',
      [K + 'ir/dfg.rs', K + 'ir/builder.rs', K + 'ir/values.rs', K + 'ir/entities.rs'],
      [('DataFlowGraph', K + 'ir/dfg.rs'), ('ValueKind::value_uses / bb_uses', K + 'ir/entities.rs')],
      'stateful property-based testing: random edit histories against a model of the graph',
      'After every edit, all live values are compared with the model.'),
    P('C06', 'Layout edits keep order, parents and lists in step',
      'After any sequence of inserting, moving, removing and clearing basic blocks and instructions, '
      'the layout lists exactly the blocks and instructions in the resulting order, forwards and '
      'backwards and from any position, the parent block of each instruction is the block whose list it is in (none if it is in none), and '
      'rejected insertions or removals change nothing.',
      ['histories'],
      'every sequence of edits of blocks and instruction lists through the layout and its cursors',
      'The tests only append; wrong parents or links appear after particular sequences of edits.',
      [K + 'ir/layout.rs'],
      [('Layout', K + 'ir/layout.rs'), ('BasicBlockList / InstList', K + 'ir/layout.rs')],
      'stateful property-based testing: random edit histories against lists as a model',
      'After every edit the whole layout is compared with the model, including cursors.'),
    P('C07', 'Builders accept exactly well-typed values and type them right',
      'Creating a value or a basic block through the builders succeeds if and only if the documented '
      'typing rules for it hold, and the created value has exactly the given operands and the type '
      'those rules give it. A rejected call panics and leaves the program as it was.',
      ['inputs', 'programs'],
      'every builder call over operands of every type (well-typed and ill-typed) in local and global '
      'position',
      'The tests call builders with well-typed operands of a few types only.',
      [K + 'ir/builder.rs', K + 'ir/values.rs', K + 'ir/entities.rs'],
      [('builder traits', K + 'ir/builder.rs'), ('value constructors', K + 'ir/values.rs')],
      'property-based testing: random builder calls against a reference type checker',
      'The reference type checker is written from the documented panics of each builder method.'),
    P('C08', 'Every program built through the API prints as valid Koopa IR',
      'Printing any well-formed program built through the API as Koopa IR gives a text that the front '
      'end accepts and that denotes an equivalent program: the same globals, functions, blocks, '
      'instructions, operands and types in the same order, whatever names (missing, duplicate, '
      'temporary-looking) its values, blocks and parameters carry. A unique name is kept, unless it looks '
      'like one made up for a clash.',
      ['programs'],
      'every well-formed program built through the API whose operands the text can express (no '
      'aggregate or zero operands outside stores), with any names, shared '
      'constants and detached items',
      'The tests print programs whose names are all distinct.',
      [K + 'back/koopa.rs', K + 'back/generator.rs'],
      [('Visitor', K + 'back/koopa.rs'), ('NameManager', K + 'back/generator.rs')],
      'property-based testing: generated API programs, print and reparse against a model',
      'Programs are compared structurally with the model after parsing the printed text.'),
    P('C09', 'LLVM output is well-formed and keeps the meaning of the program',
      'The LLVM IR printed for a well-formed program is well-formed (each name defined once and before '
      'use, operands of the stated types, one phi entry per predecessor edge), declares and defines the same '
      'globals and functions in the same order, and behaves like the program: for the same inputs it '
      'performs the same calls with the same arguments and returns the same values.',
      ['programs', 'inputs'],
      'every well-formed program whose entry blocks have no parameters, over arguments and memory '
      'contents that keep its behaviour defined',
      'The tests print one or two programs and never run the output.',
      [K + 'back/llvm.rs', K + 'back/generator.rs'],
      [('Visitor', K + 'back/llvm.rs'), ('NameManager', K + 'back/generator.rs')],
      'property-based testing: differential execution of Koopa IR and of the printed LLVM IR',
      'Both sides run in interpreters of our own; a reader checks the LLVM text for well-formedness.'),
    P('C10', 'Raw programs mirror the program they are built from',
      'The raw form built from a program lists exactly its globals, functions, parameters, blocks and '
      'instructions in order, and every raw item carries the same name, type, operands, targets, '
      'indices and users as the original, the same entity always being the same raw item. This holds '
      'again when the same raw builder is used for several programs or again for the same one.',
      ['programs', 'histories'],
      'every well-formed program, and every sequence of programs given to one raw builder',
      'No test reads a raw program.',
      [L + 'raw/builder.rs', L + 'raw/entities.rs', L + 'raw/mod.rs'],
      [('RawProgramBuilder', L + 'raw/builder.rs'), ('build_on', L + 'raw/builder.rs')],
      'property-based testing: generated programs, raw form read back and compared with the model',
      'The raw structures are walked pointer by pointer.'),
    P('C11', 'Raw programs convert back into the same program',
      'Turning a program into its raw form and back gives a program that prints exactly the same Koopa '
      'IR text and has the same structure: globals, functions, blocks, parameters, instructions, '
      'operands, types, names and order, with consistent users and parents.',
      ['programs'],
      'every well-formed program, in memory or parsed from text',
      'No test converts a raw program.',
      [L + 'raw/builder.rs', L + 'raw/generator.rs'],
      [('RawProgramBuilder', L + 'raw/builder.rs'), ('generate_program', L + 'raw/generator.rs')],
      'property-based testing: generated programs, raw round trip, text and model compared',
      'Exact text equality and structural equality with the model.'),
    P('C12', 'Malformed raw programs are refused with the documented error',
      'Generating a program from a raw program that has a slice of the wrong kind, a function without '
      'a name, a function whose type is not a function type, a definition with the wrong number of '
      'parameters, or a name that is not UTF-8 returns the error code documented for that defect and '
      'leaves the output untouched; a well-formed one is accepted, including when its constants are '
      'shared or its items were built in any order.',
      ['inputs', 'fault_sequences'],
      'every single defect, of every kind, at every place of a raw program',
      'No test builds a malformed raw program.',
      [L + 'raw/generator.rs', L + 'errors.rs', L + 'raw/ffi.rs'],
      [('generate_program', L + 'raw/generator.rs'), ('ErrorCode', L + 'errors.rs')],
      'property-based testing: generated raw programs with one injected defect, error code compared',
      'Defects are injected into raw structures built from generated programs.'),
    P('C13', 'The C header describes the library exactly',
      'A C program that includes the published header and links the library sees, through the declared '
      'types, tags, constants and functions, exactly the program the library holds: the same items, '
      'kinds, operators, operands, types, names and order.',
      ['programs'],
      'every well-formed program, over all type kinds, value kinds, operators and error codes',
      'The header is written by hand and no test compiles it.',
      ['libkoopa/include/koopa.h', L + 'raw/entities.rs', L + 'errors.rs', L + 'lib.rs'],
      [('koopa.h', 'libkoopa/include/koopa.h'), ('repr(C) types', L + 'raw/entities.rs')],
      'property-based testing: generated programs walked by a C program compiled with the header',
      'The C walker prints what it sees; the printed form is compared with the model.'),
    P('C14', 'C functions read and write programs as documented',
      'The C functions parse from strings, files, descriptors and standard input, and print to buffers, '
      'files, descriptors and standard output, with the same result as the Rust API, in Koopa IR and in '
      'LLVM IR; buffers are never overrun, the needed length is reported when no buffer is given, '
      'too small a buffer is refused, outputs are untouched on failure, and each failure has its '
      'documented error code.',
      ['inputs', 'histories', 'configurations'],
      'every program (valid or not), source, destination, and buffer size',
      'No test calls the C functions.',
      [L + 'driver.rs', L + 'back.rs', L + 'io.rs', L + 'utils.rs', L + 'errors.rs'],
      [('koopa_parse_from_*', L + 'driver.rs'), ('koopa_dump_*', L + 'back.rs')],
      'property-based testing: random programs through every C entry point, differential with the Rust API',
      'Files and descriptors live in a scratch directory.'),
    P('C15', 'Types are interned, printed and measured consistently',
      'Two types obtained in any way are equal exactly if they are structurally the same (and are then '
      'the very same object), each prints in its canonical text form, and its size is the size given by '
      'its structure and the current pointer size. Types never change each other.',
      ['inputs', 'histories'],
      'every structure of types, created in any order and number, on any thread, with any pointer size',
      'The tests create a few fixed types.',
      [K + 'ir/types.rs'],
      [('Type interning', K + 'ir/types.rs'), ('Type::size', K + 'ir/types.rs')],
      'property-based testing: random type pools against a structural model',
      'Pairs of types are compared with a structural model.'),
    P('C16', 'Structural equality of values is exactly equality of their trees',
      'Two values compare as structurally equal exactly if they have the same kind, and recursively '
      'structurally equal operands, the same constants, types, targets, callees and operators; '
      'the comparison is reflexive and symmetric, and is not affected by names or users.',
      ['inputs', 'programs'],
      'every pair of values of a function, over all kinds, with one difference in any field',
      'No test compares values.',
      [K + 'ir/dfg.rs'],
      [('value_eq / data_eq', K + 'ir/dfg.rs')],
      'property-based testing: random pairs of values, mutated in one field, against a tree comparison',
      'The reference compares models of the trees.'),
    P('C17', 'Name management is stable, injective, well-prefixed and bounded',
      'Within one scope a name manager gives the same entity always the same name and different '
      'entities different names, keeps unique given names, uses the configured prefixes, never exceeds the '
      'configured maximum length by more than its own suffix, and gives the same names for the same '
      'sequence of requests.',
      ['histories', 'configurations'],
      'every sequence of requests for names of globals, functions, blocks and values with any given '
      'names, in every mode and with any maximum length',
      'The tests ask for a few names in one mode.',
      [K + 'back/generator.rs'],
      [('NameManager', K + 'back/generator.rs')],
      'stateful property-based testing: random request sequences, validity predicates over the names',
      'Predicates over all names handed out.'),
    P('C18', 'Passes run in order, once on each function, on the whole program',
      'Running a pass manager runs the registered passes one after another in the order of '
      'registration; a function pass sees every function of the program, as left by the passes before it, exactly once per run, and a module '
      'pass sees the whole program once.',
      ['histories', 'programs'],
      'every sequence of passes (repeated and mixed kinds) over every program, run any number of times',
      'The test runs a few passes on one program.',
      [K + 'opt/passman.rs', K + 'opt/pass.rs'],
      [('PassManager::run_passes', K + 'opt/passman.rs')],
      'stateful property-based testing: recorded pass histories against the registration order',
      'Passes record and modify the program; the trace is compared with the expected one.'),
    P('C19', 'Front ends and programs do not influence each other',
      'Any number of front ends and programs, used one after another or on several threads at once, '
      'each behave as if they were alone: the same program text, the same errors and warnings, and '
      'handles of different values, functions and blocks are never the same, within a program or in different programs.',
      ['histories', 'schedules'],
      'every sequence of inputs on a thread and every assignment of inputs to threads',
      'The tests run each front end once per process.',
      [K + 'front/span.rs', K + 'front/driver.rs', K + 'ir/idman.rs', K + 'ir/types.rs'],
      [('thread-local state', K + 'front/span.rs'), ('id counters', K + 'ir/idman.rs')],
      'property-based testing: interleaved histories on several threads, differential with a lone run',
      'Each outcome is compared with the outcome of the same input in a fresh thread.'),
    P('C20', 'The lexer yields exactly the tokens of the text, at their positions',
      'For every text the lexer gives exactly the tokens of the lexical grammar (keywords, symbols, '
      'integers, characters, operators), skips exactly white space and comments, and reports an error for '
      'anything else, going on at the next white space; each token has the exact line and column range of its characters, and the end of '
      'file is reported again on every further request.',
      ['inputs'],
      'every text over the alphabet of the language, including comments, line breaks and odd characters',
      'The tests lex a few lines.',
      [K + 'front/lexer.rs', K + 'front/token.rs', K + 'front/span.rs'],
      [('Lexer', K + 'front/lexer.rs'), ('Pos::update', K + 'front/span.rs')],
      'property-based testing: random character sequences, differential against a reference scanner',
      'The reference scanner works on the whole text instead of a stream.'),
    P('C21', 'Diagnostics are counted and placed right, with or without the logger',
      'For every text the numbers of errors and warnings agree with the messages printed, a valid text '
      'has none, each message names a position inside the text, the first error is where the text stops '
      'being valid, and the outcome, counts and program are the same in a build without the logger.',
      ['inputs', 'configurations'],
      'every program text, valid or with an injected error, in both build configurations',
      'No test looks at positions or counts, or compares the two builds.',
      [K + 'front/span.rs', K + 'front/parser.rs', K + 'front/builder.rs', K + 'front/driver.rs'],
      [('Span::log_*', K + 'front/span.rs'), ('feature no-front-logger', K + 'front/span.rs')],
      'property-based testing: mutated programs, differential between two builds and a reference front end',
      'Captures what the front end prints to standard error.'),
    P('C22', 'Program edits keep globals, functions, names and users in step',
      'After any sequence of adding, naming and removing global values and functions (and adding removed functions again), the program lists '
      'exactly the remaining globals and functions in their order, each with the data, signature and name last given, and global '
      'values know exactly the values that use them. Edits that name something absent or break '
      'the naming rules are rejected by a panic or report absence.',
      ['histories'],
      'every sequence of program-level edits, mixed with edits inside functions',
      'The tests only add functions and values.',
      [K + 'ir/entities.rs', K + 'ir/layout.rs', K + 'ir/dfg.rs'],
      [('Program', K + 'ir/entities.rs'), ('FunctionData', K + 'ir/entities.rs')],
      'stateful property-based testing: random edit histories against a model of the program',
      'After every edit the whole program is compared with the model.'),
    P('C23', 'What the C interface hands out lives until deleted, and no longer',
      'Raw programs obtained from a raw program builder stay valid and unchanged until that builder is '
      'deleted, whatever other programs, builders and files are used, deleted or closed in between, '
      'including the program they were built from. Deleting everything that was handed out gives back all '
      'memory and every descriptor the calls took, also after calls that failed; only types stay '
      'interned.',
      ['histories'],
      'every sequence of C calls that parse, build raw programs, generate, print and delete, in any '
      'order of deletion',
      'No test uses the C functions; a dangling pointer or a leak needs a particular order of calls, and '
      'reading freed memory often goes unnoticed.',
      [L + 'raw/builder.rs', L + 'raw/ffi.rs', L + 'raw/generator.rs', L + 'driver.rs', L + 'back.rs',
       L + 'io.rs'],
      [('RawProgramBuilder', L + 'raw/builder.rs'), ('koopa_delete_*', L + 'raw/ffi.rs'),
       ('RawFile', L + 'io.rs')],
      'stateful property-based testing: random histories of C calls, raw programs re-read after each '
      'call, balance of memory and descriptors',
      'An allocator of our own counts what is alive and overwrites freed memory.'),
    P('C24', 'Printers write the whole text or report the failure of the writer',
      'Printing a program, in Koopa IR or LLVM IR, to any writer either succeeds, the writer then having '
      'been given exactly the whole text in order, also if it takes only some bytes at a time or is '
      'interrupted; or returns the error of the writer, which then has been given exactly a prefix of the '
      'text. It never panics and never reports success for a text that was not taken whole.',
      ['programs', 'fault_sequences'],
      'every program, and every writer: short writes, interruptions, and a failure of any kind after any '
      'number of bytes',
      'The tests print to a vector, which never fails.',
      [K + 'back/koopa.rs', K + 'back/llvm.rs', K + 'back/generator.rs'],
      [('Visitor for koopa', K + 'back/koopa.rs'), ('Visitor for llvm', K + 'back/llvm.rs'),
       ('Generator', K + 'back/generator.rs')],
      'property-based testing: generated programs printed to writers with injected faults',
      'Outcome, kind of the error and bytes written are compared with an undisturbed print.'),
    P('C25', 'Syntax trees say what the text says, and where',
      'The parser turns a text into trees that hold exactly what it says: every item, block, statement, '
      'operand, type, name, number and list, in order, each node with the range from its first to its last '
      'token. After a wrong token the error is a node of its own and the rest of the text is understood from '
      'the next point where that is possible, so that nothing correct before or after it is lost or made up. '
      'Two trees are equal exactly if they say the same, wherever they stand, and building the trees of a '
      'text gives the program of the text.',
      ['inputs'],
      'every sequence of tokens, legal or not, in every layout',
      'Tests compare a few trees and no ranges; what recovery leaves out shows only in longer wrong texts.',
      [K + 'front/parser.rs', K + 'front/ast.rs', K + 'front/lexer.rs', K + 'front/builder.rs'],
      [('Parser::parse_next', K + 'front/parser.rs'), ('Ast, AstKind', K + 'front/ast.rs')],
      'property-based testing: generated and damaged token lists, trees compared with an independent '
      'recovering parser',
      'After an error of the scanner, or where an item or statement cannot begin, nothing more is claimed.'),
    P('C26', 'Positions, ranges and counts are exact, and diagnostics show their lines',
      'A position advances by one column per character and to the next line per line break; a range '
      'goes from where it began to the last end it was given. Each logged error, fatal error or warning is '
      'counted once since the last reset, and printed once: its message, file and start, and '
      'if the file can be read the lines of the range, with the marks under exactly its columns (long '
      'ranges shortened in the middle). Nothing about a range, a line that does not exist, a column '
      'behind the line, or a file that is missing or no text makes it panic. Without the logger nothing is '
      'printed, and the error itself has file, start and message.',
      ['histories', 'inputs'],
      'every sequence of calls on positions and ranges, every file, and every range that does not end '
      'before it starts',
      'The tests log to a buffer, which shows no lines; lines 9, 99, 999, tabs and ends behind the line need '
      'particular files.',
      [K + 'front/span.rs'],
      [('Span::log_*', K + 'front/span.rs'), ('Span::print_file_info', K + 'front/span.rs'),
       ('Pos::update', K + 'front/span.rs')],
      'stateful property-based testing: histories of calls against a model of what is returned and printed',
      'Marks are only compared where the line is ASCII and the column inside of it.'),
    P('C27', 'Items are understood one by one: errors in one do not affect the others',
      'If a text consists of parts that define no common global names and each ends where an item can '
      'begin, the errors and warnings for the whole are exactly those of the parts alone, each at its place, '
      'also if some parts are wrong and if they use the same local names. The front end gives up only after '
      'more than 20 errors, at the end of an item, and says so. If all parts are valid, the program has '
      'exactly the globals and functions of the parts, in order.',
      ['inputs'],
      'every list of program texts, valid or not',
      'Tests have one wrong item at most; what leaks from one item into another shows only in longer texts.',
      [K + 'front/parser.rs', K + 'front/builder.rs', K + 'front/driver.rs', K + 'front/span.rs'],
      [('Builder', K + 'front/builder.rs'), ('match_token!', K + 'front/parser.rs'),
       ('Driver::generate_program', K + 'front/driver.rs')],
      'property-based testing: metamorphic relation between a text and its parts, damaged at random',
      'No model: the diagnostics and the program of the whole are compared with those of the parts.'),
]

with open(HERE + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        if p['id'] not in HAVE:
            continue
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'hook_needed': None}}) + '\n')

json.dump({
    'version': 1,
    'setup_cmd': './check.sh setup',
    'checks': [{'property': p['id'],
                'quick_cmd': f"./check.sh {p['id']} quick",
                'thorough_cmd': f"./check.sh {p['id']} thorough",
                'technique': p['tech'], 'level': 'exploration', 'level_note': p['note']}
               for p in PROPS if p['id'] in HAVE],
    'not_applicable': [],
    'notes': 'No hooks in /repo are needed: every check works through the public API. '
             'Checks rebuild /repo from its working tree through cargo path dependencies.',
}, open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')

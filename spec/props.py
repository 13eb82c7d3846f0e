"""Source of properties.jsonl and MANIFEST.json: `python3 spec/props.py` rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


MIR = 'abstract interpretation of the MIR (flow- and path-sensitive interprocedural dataflow, fixpoint with widening)'
TRUST = ('Decided on the MIR of the current tree, for all paths and inputs, no bound on loops (fixpoint). Trusts the extractor, the library models in '
         'engine/lib.py and the contracts named in DESIGN.md; constructs the analysis cannot follow are reported as undecided in the evidence, not as violations.')

CLI = ['crates/bulloak/src/main.rs', 'crates/bulloak/src/cli.rs', 'crates/bulloak/src/scaffold.rs', 'crates/bulloak/src/check.rs']

prop('C01', 'Scaffold never overwrites an existing file without the force flag',
     'For every set of input trees and every content of the file system, `bulloak scaffold` without the force-write flag never modifies, truncates or replaces a file that existed when it was about to be written; '
     'it reports on stderr that it skipped it. With the force flag the file is replaced by the newly generated text.',
     ['inputs', 'configurations', 'histories'], 'every command line, every list of input files and every prior state of the output paths',
     'Tests run a handful of fixture trees with -w in one directory state; the guarantee is over every path that reaches a write.',
     CLI[2:3], [{'name': 'existence check before the write', 'where': 'Scaffold::write_file'}],
     MIR + '; dominance of every write effect by a guard fact', TRUST)
prop('C02', 'Read-only modes write no file',
     '`bulloak scaffold` without the write flag and `bulloak check` without `--fix`, or with `--fix --stdout`, create, modify or delete no file, whatever the inputs contain and whatever fails.',
     ['inputs', 'configurations', 'fault_sequences'], 'every command line without a writing mode, every input and every failing operation',
     'A test can only observe that particular runs left particular files alone.',
     CLI, [{'name': 'mode flags tested before each write', 'where': 'Scaffold::process_file, Check::write'}],
     MIR + '; effect analysis: guard facts at every write effect', TRUST)
prop('C03', 'Only the .t.sol sibling of an input tree is ever written',
     'The only path bulloak ever creates or modifies is that of an input tree with its extension replaced by `.t.sol`, and the text written there is the one produced for that same tree; '
     'it never deletes, renames or moves a file, creates a directory, starts another process or opens a network connection.',
     ['inputs', 'configurations'], 'every command line, both commands, every input path',
     'Tests observe the expected output file, not the absence of writes elsewhere, and only for a few path shapes.',
     CLI + ['crates/foundry/src/check/context.rs'], [{'name': 'path derivation', 'where': 'Scaffold::process_file, Context::new'}],
     MIR + '; effect confinement and who-may-call over all call sites', TRUST)
prop('C04', 'What scaffold writes is exactly what it would print',
     'For every tree and every combination of the other options, the text `scaffold -w` writes to the output file is the text `scaffold` prints for that tree (up to the final line break of the print), '
     'and it is the generated code for the contents of that very tree file.',
     ['inputs', 'configurations'], 'every tree file and option combination',
     'Tests compare stdout with fixtures for some trees and never compare the two modes.',
     CLI[2:3], [{'name': 'single formatted text used by both modes', 'where': 'Scaffold::process_file'}],
     MIR + '; equality of the abstract contents of the two sinks', TRUST)
prop('C05', 'Scaffold exit status and error reports reflect every failure',
     '`bulloak scaffold` exits with status 0 exactly when every input was read, translated and (in write mode) written or skipped because it already exists; otherwise it exits non-zero. '
     'For every input that failed, stderr names the path of that input and shows its error.',
     ['inputs', 'fault_sequences'], 'every sequence of inputs and every subset of them failing to be read, translated or written',
     'Tests cover two failing inputs; a failure dropped on one path of one kind goes unnoticed.',
     CLI[2:3], [{'name': 'error collection', 'where': 'Scaffold::run, Scaffold::report_errors'}],
     MIR + '; typestate (a failure happened / none) against the exit status, provenance of reported errors', TRUST)
prop('C06', 'A failing input never prevents the others from being processed',
     'Every input given on the command line is processed, in either command, no matter how many others are unreadable, malformed, lack a Solidity file or cannot be written; '
     'such a failure is a reported error and never a panic of the scaffold command. Every tree that scaffold processed successfully is printed, written or reported as skipped.',
     ['inputs', 'fault_sequences'], 'every list of inputs and every subset of failing ones',
     'Tests exercise one or two mixed lists.',
     CLI + ['crates/foundry/src/scaffold/mod.rs'], [{'name': 'filter_map over all files', 'where': 'Scaffold::run, Check::run'}],
     MIR + '; loop-exhaustion facts at every outcome, absence of reachable panic blocks', TRUST)
prop('C07', 'Check exits non-zero exactly when something is wrong',
     '`bulloak check` (without `--fix`) exits with status 0 exactly when every tree and Solidity file was loaded and no violation was found in any of them; then it prints the success message on stdout, '
     'otherwise it exits non-zero, prints no success message and reports on stderr.',
     ['inputs', 'histories'], 'every list of inputs and every outcome of the per-file checks',
     'Tests check a few files, mostly one at a time; the guarantee is over all combinations.',
     CLI[3:4], [{'name': 'accumulated violations', 'where': 'Check::run, exit'}],
     MIR + '; typestate (something wrong / nothing) against the exit status and the printed messages', TRUST)
prop('C08', 'Check reports every violation of every file',
     '`bulloak check` (without `--fix`) checks every pair of files that could be loaded, and prints on stderr every failure to load a pair and every violation found in any of them: none is dropped, '
     'whatever the other inputs are.',
     ['inputs'], 'every list of inputs and every set of violations in them',
     'Tests look for particular messages in particular runs.',
     CLI[3:4], [{'name': 'accumulated violations', 'where': 'Check::run, exit'}],
     MIR + '; provenance: every violation term flows into a printed collection', TRUST)
prop('C09', 'Check --fix applies every fix and is honest about the outcome',
     '`bulloak check --fix` hands every violation found in a file, order violations last, to its fix, and outputs the resulting text of every file it could load, to the file or with `--stdout` to the standard output. '
     'It exits non-zero exactly when some file could not be loaded or written, and reports those.',
     ['inputs', 'fault_sequences'], 'every list of inputs, every set of violations and every failing load or write',
     'Tests fix single files that load and can be written.',
     CLI[3:4], [{'name': 'two passes of fixes', 'where': 'Check::run'}],
     MIR + '; provenance of fixed and written contexts, typestate against the exit status', TRUST)
prop('C10', 'Command line options reach the generator unchanged',
     'Each documented option exists in both spellings, flags default to off and the Solidity version to 0.8.0; the values given for the Solidity version, the vm-skip flag and the skip-modifiers flag '
     'are the ones used to generate or check every input.',
     ['configurations'], 'every combination of options',
     'Tests use three or four combinations.',
     CLI, [{'name': 'clap definitions', 'where': 'Scaffold, Check'}, {'name': 'conversion to Config', 'where': 'From<&Cli> for Config'}],
     MIR + '; evaluation of the argument definitions, dataflow from option fields to the library calls', TRUST)


HIRF = ['crates/foundry/src/hir/translator.rs', 'crates/foundry/src/hir/mod.rs', 'crates/foundry/src/hir/hir.rs']
SOLF = ['crates/foundry/src/sol/translator.rs', 'crates/foundry/src/sol/fmt.rs', 'crates/foundry/src/scaffold/mod.rs', 'crates/foundry/src/scaffold/emitter.rs']
SHAPE = MIR + '; shape of the abstract result compared, per class of children, with the required one'

prop('C11', 'Every condition and action of the tree reaches the generated contract',
     'For every tree: the generated contract is named after the root; each top-level action has one test function, each condition has one test function exactly when it has actions of its own, and there are no other functions; '
     'the body of a test lists, for each action of its condition in order, the action text and the text of each of its descriptions, verbatim, as comments. '
     'The functions of a condition precede those of its nested conditions, and siblings keep the order of the tree.',
     ['inputs'], 'every tree: any depth, any number and mix of children',
     'Fixtures have a few shapes of trees; a branch dropped for one mix of children goes unnoticed.',
     HIRF[:1], [{'name': 'visitor of the tree', 'where': 'TranslatorI::visit_root, visit_condition, visit_action, visit_description'}], SHAPE, TRUST)
prop('C12', 'A test carries the modifiers of its chain of conditions, outermost first',
     'For every tree: a condition gets a modifier definition exactly when conditions are nested in it; the test function of a condition carries the modifiers of all the conditions that enclose it, outermost first, '
     'followed by its own when it has one, and no others; tests of top-level actions carry none. Every modifier used is one that is defined for that condition.',
     ['inputs'], 'every tree: any depth and order of nested conditions',
     'A stack left unbalanced after some shape of subtree shows only in trees with that shape followed by siblings.',
     HIRF[:1] + ['crates/foundry/src/scaffold/modifiers.rs'], [{'name': 'modifier stack', 'where': 'TranslatorI::visit_condition'}, {'name': 'modifier discovery', 'where': 'ModifierDiscoverer'}], SHAPE, TRUST)
prop('C13', 'Names of tests and modifiers are a function of the titles alone',
     'The test of a condition is named `test_` followed by all words of its title in order, each with a capital initial; if the first action of the condition reads "it should revert" up to case and punctuation, it is named '
     '`test_Revert<Keyword>_` followed by the other words. The test of a top-level action is named `test_` followed by its words after the first, without characters that an identifier cannot hold (hyphens become underscores). '
     'A modifier is named by the words of the title of its condition, capitalised, with a lower-case first letter.',
     ['inputs'], 'every title and every first action',
     'Tests name a handful of titles in ASCII with plain spacing.',
     HIRF[:1] + ['crates/syntax/src/utils.rs'], [{'name': 'folds over the words of the title', 'where': 'TranslatorI::visit_condition, visit_root'}, {'name': 'spelling helpers', 'where': 'bulloak_syntax::utils'}],
     MIR + '; string terms brought to a normal form over the words of the title and compared with the required one', TRUST)
prop('C14', 'vm.skip and the forge-std import appear exactly when asked for',
     'With the vm-skip option, every test function of the generated contract, and no modifier, holds one `vm.skip(true);` statement, the file imports `Test` from `forge-std/Test.sol` and every contract inherits from it; '
     'without the option the output has none of these.',
     ['inputs', 'configurations'], 'every tree with and without the option',
     'Fixtures use the option for two trees.',
     HIRF[:1] + SOLF[:1], [{'name': 'vm skip flags', 'where': 'TranslatorI, sol::translator'}], SHAPE, TRUST)
prop('C15', 'The Solidity source renders the generated structure completely and faithfully',
     'Every contract, function, modifier, comment and statement of the intermediate structure appears in the emitted Solidity, in order, once: functions are external and named as in the structure, carry its modifiers in order, '
     'modifiers have the placeholder body, and the comments of a body are printed as line comments with their text unchanged. Nothing else is emitted.',
     ['inputs'], 'every intermediate structure the tree translation can produce',
     'Fixtures cover a few structures; printing special characters, empty bodies or long modifier lists is not sampled.',
     SOLF, [{'name': 'translator to the Solidity parse tree', 'where': 'sol::translator'}, {'name': 'printer', 'where': 'sol::fmt::Formatter'}, {'name': 'comments restored', 'where': 'scaffold::scaffold'}], SHAPE, TRUST)
prop('C16', 'Skipping modifiers drops exactly the modifier definitions; one pragma is emitted',
     'With the skip-modifiers option the emitted Solidity lacks the modifier definitions and is otherwise the one emitted without it; without the option all of them are there. '
     'Every emitted file starts with exactly one pragma with the configured Solidity version.',
     ['inputs', 'configurations'], 'every tree with and without the option, every version string',
     'Fixtures use the option on one tree.',
     SOLF, [{'name': 'modifier filter', 'where': 'sol::translator'}, {'name': 'pragma', 'where': 'sol::translator'}], SHAPE, TRUST)
prop('C17', 'check --fix inserts the same function text that scaffold emits',
     'The text that `check --fix` inserts for a missing function or modifier is made of the same words, in the same order, as the text scaffold generates for it: same kind, name, visibility, modifiers and comments (and placeholder for a modifier). It is inserted as it is at the chosen offset, and nothing else of the source changes.',
     ['inputs'], 'every function and modifier definition that can be missing',
     'Tests fix a few missing functions and compare with fixtures; the two generators are separate code.',
     SOLF[3:] + ['crates/foundry/src/check/violation.rs'], [{'name': 'textual emitter', 'where': 'scaffold::emitter::Emitter'}],
     MIR + '; the two string terms brought to a word normal form and compared', TRUST)
prop('C18', 'Combining the trees of a file loses no test and mixes no names',
     'When a file holds several trees, the generated contract holds, tree by tree in order, every test of every tree, each prefixed with the name of the function given after `::` in its root, and each distinct modifier once; '
     'a root without a function name, or with a contract name differing from that of the first root, is an error and no output is produced. A file with a single tree is translated as it is.',
     ['inputs'], 'every number of trees, every combination of names and of equal tests across trees',
     'Fixtures combine two or three trees with distinct tests.',
     ['crates/foundry/src/hir/combiner.rs', 'crates/foundry/src/hir/mod.rs'], [{'name': 'combiner', 'where': 'HirCombiner'}],
     MIR + '; loop-transition rules on the accumulated nodes, typestate of the name checks', TRUST)

CHK = ['crates/foundry/src/check/rules/structural_match.rs', 'crates/foundry/src/sol/mod.rs']

prop('C19', 'Check reports exactly the functions of the tree that the contract lacks',
     'For each function and modifier generated from the tree, in order, check reports one violation carrying it when the first contract of the Solidity file has no definition of the same name that is likewise a function or a modifier; '
     'it reports nothing for one that is present, nor for a missing modifier when modifiers are skipped, nor for functions the tree does not ask for. A definition matches on its exact name and type only, and the first such definition counts.',
     ['inputs', 'configurations'], 'every tree, every Solidity file that parses, with and without skipping of modifiers',
     'Fixtures compare about ten pairs of files; names, types and positions of definitions combine freely.',
     CHK, [{'name': 'structural rule', 'where': 'check_fns_structure'}, {'name': 'search for a definition', 'where': 'find_matching_fn'}],
     MIR + '; truth table of the reporting condition over present/modifier/skip facts, first-match rule on the search', TRUST)
prop('C20', 'Check reports a missing contract and a wrong contract name, and only those',
     'The contract compared is the first one of the Solidity file. When the file holds none and the tree yields one, exactly one violation says so, with its name, and nothing else is reported. '
     'When there is one, its name is reported, with the expected name, exactly when it differs from the sanitised name of the root; names are compared for equality.',
     ['inputs'], 'every tree and every Solidity file that parses, with any number of contracts and other parts',
     'Tests have a few files with one contract each.',
     CHK, [{'name': 'contract search and name comparison', 'where': 'find_contract, check_contract_names'}],
     MIR + '; case analysis of outcomes, first-match rule on the search', TRUST)
prop('C21', 'Check reports exactly the functions that are out of the order of the tree',
     'Among the functions and modifiers of the tree that are present in the contract, one is reported as misplaced exactly when some other that follows it in the tree precedes it in the contract, '
     'however many lie between them; the report carries the definition found and its two positions. Definitions unknown to the tree never matter.',
     ['inputs', 'configurations'], 'every permutation of the definitions of every contract',
     'The number of permutations is unbounded; tests have a handful.',
     CHK, [{'name': 'inversion search', 'where': 'check_fns_structure'}],
     MIR + '; quantifier-range analysis of the nested loops (bounds, index relation) and of the collected set', TRUST)
prop('C22', 'Check locates each violation at the right file and line',
     'A missing contract is located at the tree; a missing function or modifier at the tree and the line of the condition or action it comes from; a wrong name or position at the Solidity file and the line where that definition starts. '
     'The line of a byte offset is one more than the number of line breaks before the construct, whatever characters the file holds.',
     ['inputs'], 'every pair of files, every character content',
     'Tests check locations of a few ASCII files; bytes and characters differ only beyond those.',
     CHK[:1] + ['crates/foundry/src/check/utils.rs'], [{'name': 'locations', 'where': 'Violation::new calls, offset_to_line'}],
     MIR + '; provenance of each location, unit (byte/character) analysis of offsets', TRUST)
prop('C23', 'Check compares the files it was asked to, and names the one that fails to load',
     'For each tree, check compares the structure generated from the contents of that file with the contents and parse tree of its sibling of extension `.t.sol`, under the configuration given. When the pair cannot be loaded there is exactly one violation, '
     'of the kind of the first failure (tree unreadable; tree invalid, with its error; Solidity file missing; unreadable; unparsable), located at the file that failed (a missing sibling at the tree).',
     ['inputs', 'fault_sequences'], 'every path, every content and every failing read',
     'Tests load valid pairs, one missing file and one invalid tree.',
     ['crates/foundry/src/check/context.rs'], [{'name': 'loading of a pair', 'where': 'Context::new'}],
     MIR + '; provenance of each component, case analysis of failing operations', TRUST)

SYN = ['crates/syntax/src/lib.rs', 'crates/syntax/src/splitter.rs', 'crates/syntax/src/tokenizer.rs', 'crates/syntax/src/parser.rs', 'crates/syntax/src/semantics.rs']

prop('C24', 'Every tree that is used is complete, parsed and valid',
     'Scaffold and check work only on trees that passed all stages: every tree returned by the syntax crate is the parse of all tokens of its text, in order, and passed the semantic analysis. '
     'When a stage fails for any tree of a file, its error is returned, referring to the text of that tree, and no tree of the file is used.',
     ['inputs'], 'every text, every number of trees in it and every failing stage',
     'Tests parse some valid texts and a few invalid ones; that no path skips a stage, drops an error or passes over a tree is not observable from samples.',
     SYN[:1] + SYN[3:], [{'name': 'stages of a tree', 'where': 'bulloak_syntax::parse, parse_one'}],
     MIR + '; typestate of a tree through its stages', TRUST)
prop('C25', 'A file is cut into its trees at every blank line, none lost',
     'The text of a file is cut at every blank line and nowhere else; each block with a line that is no comment is one tree, all of them in the order of the file, with only surrounding white space removed. '
     'Blocks of comment lines only are passed over when there are trees; a text of white space is one (empty, thus rejected) tree.',
     ['inputs'], 'every text',
     'Tests split three or four texts of one or two blocks.',
     SYN[:2], [{'name': 'splitter', 'where': 'splitter::split_trees'}],
     MIR + '; loop-transition rules, guards of each block evaluated on representative lines', TRUST)
prop('C26', 'Positions of tokens, nodes and errors follow the text',
     'Moving over one character of a tree adds its length in bytes to the offset, and one to the column; a newline starts the next line at column 1. Nothing moves at the end of the text. '
     'So lines, columns and offsets in tokens and errors, and the nesting computed from columns, are those of the text, whatever characters it has.',
     ['inputs'], 'every text, with multi-byte characters, and every position in it',
     'Tests compare positions of tokens in some texts.',
     SYN[2:3], [{'name': 'position of the tokenizer', 'where': 'TokenizerI::scan'}],
     MIR + '; transition rule on the position', TRUST)
prop('C27', 'The text is read into the tokens its characters stand for',
     'Blanks, tabs, ends of lines and the box lines `│` and `─` make no token, `├` and `└` make a branch token each, `//` starts a comment up to the end of its line, and every other character starts a word that goes on to the next white space and holds exactly the characters up to there. '
     'A word is a keyword (when, given, it) whatever its case. Characters that cannot be part of an identifier are rejected in the titles of conditions and nowhere else. The whole text is read.',
     ['inputs'], 'every text: every character in every context (behind a branch, in a condition title, in an action)',
     'Tests tokenize about ten small texts and three invalid characters.',
     SYN[2:3], [{'name': 'tokenizer', 'where': 'TokenizerI::tokenize, scan_word, scan_comments'}],
     MIR + '; transitions of the tokenizer as a guarded automaton, guards evaluated on representative characters of each class (partition refined by the constants in the guards)', TRUST)

prop('C28', 'The tree of a file holds exactly the branches its tokens draw',
     'The first word of a tree names its contract. A branch followed by `when`/`given` makes a condition, by `it` an action, and by a word a description of the action it is nested in. '
     'Titles are all the words up to the next token that is no word, in order and joined by one space; those of conditions without the characters no identifier can have and with `-` as `_`. '
     'The children of a node are the branches behind it that are further to the right, in order, none lost or doubled; those of the root all of them. The indentation of a description is the difference of the columns. '
     'The span of a node goes from its first token to the end of its last.',
     ['inputs'], 'every sequence of tokens',
     'Tests parse about twenty small trees and compare the nodes.',
     SYN[3:4] + ['crates/syntax/src/utils.rs'], [{'name': 'parser', 'where': 'parser::ParserI::parse_*'}, {'name': 'title of a condition', 'where': 'utils::sanitize'}],
     MIR + '; each parse function as a guarded transition system over the index of the token, guards and values evaluated on representative token windows (refined by the constants compared with)', TRUST)
prop('C29', 'Exactly the malformed trees are rejected, at the wrong token, without panic',
     'Rejected are: a tree without tokens, one that does not start with a word, a word or keyword behind the name that no branch leads to, a branch followed by neither a keyword nor (inside an action) a word, a condition without words behind its keyword, an action with something else than descriptions inside, '
     'a last branch at the top drawn with `├` and an earlier one drawn with `└`, a branch at the end of the text. Each is rejected with the error that says so, the location of the token it is about, and the text of the tree. '
     'No other sequence of tokens is rejected, and no sequence makes the parser panic.',
     ['inputs'], 'every sequence of tokens',
     'Tests parse about ten malformed trees; what follows a given token in a given state is combinatorial.',
     SYN[3:4], [{'name': 'parser', 'where': 'parser::ParserI::parse_*'}, {'name': 'entry', 'where': 'parser::Parser::parse'}],
     MIR + '; transition systems of the parse functions, error outcomes and panics judged on representative token windows', TRUST)
prop('C30', 'Empty conditions and equal names in a tree are rejected, with all errors',
     'A tree is rejected by the semantic analysis exactly when it has no branches, some condition at any depth has no children, a node stands where none of its kind can, or two of its conditions and top-level actions become the same identifier. '
     'There is one error for each such condition and node, at its place, and one for each identifier met more than once, at the first of its places and with all of them in the order of the tree. The errors come in the same order on every run.',
     ['inputs', 'histories'], 'every tree; every iteration order of the hash map of identifiers',
     'Tests analyse six small trees, each with one kind of error; the order of several duplicates depends on a random hash seed.',
     SYN[4:5], [{'name': 'semantic analysis', 'where': 'semantics::SemanticAnalyzer'}],
     MIR + '; outcomes of each visit evaluated on representative children lists, of the analysis on every permutation of the identifiers met', TRUST)

prop('C31', 'An error about a tree shows what is wrong and the place in the text',
     'The text shown for an error of the tokenizer, the parser, the semantic analysis or the combination of trees has the message of its kind, worded as no other kind of that stage, with all data of the error: lexeme, character, number of the root, names (the expected and the found one told apart), the lines of all places of a duplicate. '
     'Unless its place begins and ends at the very start, it shows the whole line in which the place begins, one caret per column of the place, at least one, below its columns, and the line and column of the beginning. A list of semantic errors shows each error once, in order. Showing an error never panics.',
     ['inputs'], 'every error of every kind at every place of every text',
     'One test renders one error; other tests compare error values, not what is shown.',
     ['crates/syntax/src/error.rs', 'crates/syntax/src/parser.rs', 'crates/syntax/src/tokenizer.rs', 'crates/syntax/src/semantics.rs', 'crates/foundry/src/hir/combiner.rs'],
     [{'name': 'error display', 'where': 'FrontendError::format_error, notate'}, {'name': 'messages of the kinds', 'where': 'the ErrorKind enums'}],
     MIR + '; the text derived as pieces for each error type, evaluated on representative places and texts', TRUST)
prop('C32', 'A violation shows what is wrong, where, and a fix exactly when there is one',
     'The text of a violation has the message of its kind, worded as no other, with the names, function or path it is about (the expected name and the one found told apart), and its location: file and, if any, line. '
     'The command `bulloak check --fix` for its tree is offered, and the violation counted as fixable, exactly when it is of a kind that check --fix does something about; the help names the expected contract, or the scaffold command for the tree. '
     'For files that cannot be parsed the message blames the tree, with what is wrong, whichever stage rejected it, and else the Solidity file. The last line counts the violations shown and those that can be fixed.',
     ['inputs'], 'every violation of every kind at every location; every list of violations',
     'Tests look for fragments of a few of the messages.',
     ['crates/foundry/src/check/violation.rs', 'crates/foundry/src/check/location.rs', 'crates/bulloak/src/check.rs'],
     [{'name': 'violation display', 'where': 'Violation: Display, ViolationKind::help, is_fixable, fix'}, {'name': 'count of the violations', 'where': 'check::exit'}],
     MIR + '; texts derived as pieces, evaluated on representative violations of every kind; agreement of the fixable kinds with the kinds whose fix changes the context', TRUST)

prop('C33', 'check --fix changes exactly what a violation is about',
     'Fixing a missing function inserts it right behind the closest function before it in the tree that the file holds, or at the beginning of the body of the contract when there is none, whichever others are missing; a contract of another name is renamed where it is named and nowhere else; '
     'a missing contract is added, as scaffold writes it, behind what the file holds, with the pragma only when there is none. All other text stays, byte for byte, whatever characters or braces it holds; what follows works on the new text, its comments included. '
     'Other kinds of violation, and files without a contract or without a name, are left as they are. No fix panics over a file that parses.',
     ['inputs'], 'every pair of a Solidity file and a tree, in any state of agreement',
     'Tests fix a handful of small files in which the previous function is there, the contract comes first and no brace precedes it.',
     ['crates/foundry/src/check/violation.rs', 'crates/foundry/src/check/context.rs'],
     [{'name': 'single fixes', 'where': 'ViolationKind::fix, get_insertion_offset, Context::insert_function_at, from_parsed'}],
     MIR + '; the new text derived as pieces of the old one, evaluated on representative files and trees; loops replayed element by element', TRUST)
prop('C34', 'check --fix puts the functions of the tree in its order and loses nothing',
     'When functions are out of order, fixing brings the functions of the tree that the file holds together, each exactly once, in the order of the tree and with its text unchanged; all other parts of the contract (state variables, constructors, functions not of the tree, comments) and of the file follow or precede as they were, none lost or doubled. '
     'Without an order violation the file is not touched.',
     ['inputs'], 'every contract whose functions are out of the order of the tree, with any other parts between them',
     'Tests order one file of functions only and one with an additional function.',
     ['crates/foundry/src/check/violation.rs'],
     [{'name': 'fix of the order', 'where': 'fix_order'}],
     MIR + '; the new text derived as pieces of the old one, changes of the scratch text replayed function by function, evaluated on representative contracts and trees', TRUST)

prop('C35', 'the same command on the same files gives the same output and files',
     'What bulloak prints, writes and exits with depends on the command line and the files it reads only: not on the clock, the number of the process, addresses, random numbers or threads, and never on the order in which a hash table holds its elements. '
     'Messages, violations, functions and files come out in the same order on every run.',
     ['inputs', 'history'], 'every run of every command: each repetition, machine and state of the random hashing',
     'A test runs once; a hash table of one or two elements often comes out in the same order, and tests compare few elements.',
     ['crates/bulloak/src', 'crates/foundry/src', 'crates/syntax/src'],
     [{'name': 'all functions of the three crates', 'where': 'bulloak, bulloak_foundry, bulloak_syntax'}],
     MIR + '; a scan of every function for sources of what the inputs do not determine, and of every use of the order of a hash table up to a sort, a set or a commutative result', TRUST)
prop('C36', 'no content of a tree or a Solidity file makes bulloak itself panic',
     'Whatever a .tree or .t.sol file holds (names of any script, single words, empty or missing parts, no matching functions, several roots), the reading, combining, translating, emitting, checking and fixing code of bulloak ends with a result or an error message, '
     'never with a failed unwrap, an index or a slice out of bounds or inside of a character, an underflow or an unreachable arm that is reached. (What the Solidity libraries do inside is not covered.)',
     ['inputs'], 'every tree and every Solidity file',
     'Tests take ASCII names, files with matching functions and well-formed roots; a panic needs the input the author did not think of.',
     ['crates/syntax/src', 'crates/foundry/src/hir', 'crates/foundry/src/sol/translator.rs', 'crates/foundry/src/scaffold', 'crates/foundry/src/check'],
     [{'name': 'spelling', 'where': 'utils.rs: upper_first_letter, sanitize, to_pascal_case'}, {'name': 'translation', 'where': 'TranslatorI::visit_root, visit_condition'}, {'name': 'combining', 'where': 'hir::translate, CombinerI::combine'},
      {'name': 'checking', 'where': 'StructuralMatcher::check'}, {'name': 'fixing', 'where': 'ViolationKind::fix, fix_order'}, {'name': 'messages', 'where': 'FrontendError, Violation'}, {'name': 'reading', 'where': 'tokenizer, parser, semantics, splitter'}],
     MIR + '; every panic (failed unwrap, bounds, underflow, unreachable) is an outcome with its path conditions, which no representative input satisfies; loops are replayed up to the turn that panics', TRUST)


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': p['mech']}}) + '\n')
            assert len(p['title']) <= 80, p['title']
    m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
         'checks': [{'property': p['id'], 'quick_cmd': f'python3 tools/check.py {p["id"]} --tier quick',
                     'thorough_cmd': f'python3 tools/check.py {p["id"]} --tier thorough',
                     'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']} for p in P if not p['na']],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']]}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')


if __name__ == '__main__':
    main()

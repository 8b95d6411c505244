ENG = ['rule.go', 'rule_choice.go', 'rule_concatenate.go', 'rule_repetition.go', 'rule_option.go', 'rule_group.go', 'rule_block.go', 'rule_reference.go', 'rule_eof.go', 'rule_terminal_char.go', 'rule_terminal_chars.go', 'rule_terminal_string.go', 'rule_terminal_range.go']
AI = 'abstract interpretation of the SSA form (fixpoint over a zone domain with text segments, joins and widening); rule and stream contracts assumed for nested calls and shown for every implementation'
AINOTE = 'All paths, inputs and grammars of the analysed functions are covered by an over-approximation; nested evaluations are taken by the same contract that is shown for every implementation (induction on evaluation depth, so left recursion is excluded). Trusts the Go type checker, the SSA builder and the models of library calls; what the interpreter cannot model is reported, not skipped.'
TODO = 'no check built yet'
P = [
 dict(id='C01', title='Backtracking neither loses, repeats nor reorders text',
  statement='Whatever rule is evaluated on whatever text, the text it reports as read is exactly the contiguous run it took from the stream, in order, and the text it reports as unused is exactly an end piece of that run. Every nested evaluation is given the text from the first char not yet used, so no char is skipped, seen twice or out of order, however often matches are tried and abandoned.',
  over=['inputs', 'programs'], quant='every rule kind, every grammar without left recursion, every text, every leading-space flag',
  why='The existing tests run a few dozen grammar and text pairs; conservation has to hold for every nesting of rules that read ahead, fail and hand back, and a lost or doubled char only shows for particular nestings.',
  files=ENG + ['charstream.go'], mech=[('CharsRead and CharsUnused bookkeeping of every Eval', 'rule_*.go'), ('prepending unused chars to the stream', 'charstream.go: newCharstreamPrepend')],
  tech=AI, level='proof', note=AINOTE),
 dict(id='C02', title='A failed match hands everything back and says why',
  statement='An evaluation that does not match hands back all the text it read, so that alternatives tried next see the text as if the failed attempt had not happened, and it carries an error.',
  over=['inputs', 'programs'], quant='every rule kind, every grammar without left recursion, every text, every leading-space flag, every path that ends without a match',
  why='Failure paths are many (end of text, missing char after skipped spaces, ambiguity, too few repetitions, excluded text) and a test sees only the outermost result.',
  files=ENG, mech=[('early returns of every Eval', 'rule_*.go')],
  tech=AI, level='proof', note=AINOTE),
 dict(id='C11', title='Evaluating changes neither the grammar nor text someone holds',
  statement='Evaluating a text leaves the grammar and its rules as they were, keeps nothing for later evaluations, and only ever changes what it made itself: text and nodes that were returned earlier, the text of the rules and the text of the stream are never overwritten, however nodes are merged or texts grow.',
  over=['histories', 'inputs'], quant='every grammar, every text, every sequence of evaluations and tree simplifications',
  why='Slices share storage silently: an append overwrites what somebody else holds only if there happens to be spare room, and a rule that remembers something only shows with a second evaluation.',
  files=ENG + ['grammar.go', 'node.go', 'ast.go'], mech=[('appending to text of nodes, rules and results', 'rule_*.go, node.go'), ('rules are only read', 'rule_*.go: Eval')],
  tech='effect analysis over an inclusion-based points-to analysis of the SSA form (what evaluation may write), ownership analysis of every append (no two growths of one text, none of a piece of text someone holds)', level='proof',
  note='Storage is told apart by allocation site and field. Trusts the Go type checker and SSA builder, and that callers do not write into what they are given.'),
 dict(id='C12', title='The same grammar and text always give the same outcome',
  statement='No outcome depends on the order in which Go iterates over a map or on any other source of chance: the same grammar definitions and the same text give the same tree or the same error message, the same printed grammar and the same validation result, every time.',
  over=['schedules', 'histories'], quant='every iteration order of every map, every grammar and text',
  why='Go randomises map iteration, so a run samples one order; a dependency on it shows only for grammars with several candidates and only sometimes.',
  files=['grammar.go', 'rule.go', 'rule_choice.go', 'node.go', 'ast.go', 'space.go'], mech=[('iterations over the rule tables', 'grammar.go: Validate, EvalRaw, Serialize, StringRuleRelation, desc')],
  tech='effect analysis of every map iteration over the SSA form (commutativity of what an iteration does, total-order sort before any other use), call-site rules for sources of chance and printed addresses', level='proof',
  note='Trusts the Go type checker and SSA builder, and that fmt prints maps in key order. Uniqueness of rule lines is taken from C21.'),
 dict(id='C18', title='White space is exactly Unicode White_Space',
  statement='A char is treated as white space exactly when the Unicode White_Space property holds for it: all of the 25 code points and no other value, the end-of-file marker included.',
  over=['inputs'], quant='every value of a rune',
  why='There are four billion rune values; tests look at a handful, and a missing or extra code point only shows for texts that use it.',
  files=['space.go'], mech=[('the white space table and its lookup', 'space.go: IsWhiteSpace')],
  tech='dataflow of rune sets through the SSA form of the predicate and its tables; the resulting set is compared with the Unicode table', level='proof',
  note='The set of accepted runes is computed exactly, for whatever mix of tables, switches, comparisons and library predicates the code uses. Trusts the White_Space table of the Go library.'),
 dict(id='C08', title='A terminal matches exactly the text it stands for',
  statement='A terminal rule (string, chars, char, range, EOF) matches exactly when the text that follows, after white space that may be skipped, is what the rule stands for: its text, its char, a char of its range, or the end of the text. The match uses just the skipped white space and that text, and the node holds that text and nothing else. White space is skipped when skipping is suggested (strings also skip when it is not suggested), and never when it is ruled out. A rule that itself begins with white space is matched against the last of the white space skipped, a char or range of white space also against any white space that is skipped.',
  over=['inputs', 'programs'], quant='every terminal rule type, every rule text and range, every text, every leading-space flag',
  why='Terminals are tested with a few texts; the interplay of skipped white space with rules that contain white space, the end of the text and range bounds has far more cases.',
  files=['rule_terminal_char.go', 'rule_terminal_chars.go', 'rule_terminal_string.go', 'rule_terminal_range.go', 'rule_eof.go', 'rule.go'], mech=[('terminal evaluation', 'rule_terminal_*.go, rule_eof.go: Eval')],
  tech=AI.replace('rule and stream contracts assumed for nested calls and shown for every implementation', 'facts about all chars of a text are shown for one arbitrary position; streams are taken by their contract'), level='proof',
  note='Every path, text, rule text and leading-space flag is covered by an over-approximation. Streams are taken by the contract C09 shows, white space by C18. Rules have non-empty text; at the end of the text only EOF matches. Trusts the Go type checker and SSA builder.'),
 dict(id='C09', title='A stream yields its text char by char, and its operations agree on where it is',
  statement='A stream made from a text yields exactly the chars of that text in order, then the end-of-file marker for ever; a stream with chars put back in front yields those first and then exactly what the stream underneath yields. For every stream: Next returns the next char and moves by one; Peek returns the same char and does not move; SkipSpaces passes over all white space up to the next char that is none, and no other char, and returns just what it passed over; Match returns the chars it read, and reports a match exactly when the wanted text follows; Cursor does not move the stream and counts the chars taken from the text underneath.',
  over=['inputs', 'histories'], quant='every stream type, every text, every position, every number of chars put back, every wanted text',
  why='All parsing rests on streams that are wrapped in streams with some chars handed back; tests use a few texts and mostly plain streams, while errors sit at the seams (last handed-back char, end of text).',
  files=['charstream.go'], mech=[('stream operations', 'charstream.go: CharstreamString, CharstreamPrepend'), ('making streams', 'charstream.go: NewCharstreamFromString, newCharstreamPrepend')],
  tech=AI.replace('rule and stream contracts assumed for nested calls and shown for every implementation', 'facts about all chars of a run are shown for one arbitrary position; the stream underneath is taken by the same contract'), level='proof',
  note='Every state a stream may be in and every path of every operation is covered by an over-approximation. The stream underneath is taken by the contract that is shown for all streams (induction on the depth of wrapping). Trusts the Go type checker and SSA builder. Concurrent use is C10.'),
 dict(id='C10', title='A stream can be shared: every operation is one atomic step',
  statement='Every operation of a char stream takes effect as a single step for all goroutines that use the stream: what an operation changes is read only under the lock of the stream and written only under its lock for writing, in one critical section per operation, so that no char is delivered twice or skipped. No path of an operation leaves the lock held or acquires it again while it is held. Streams keep no state outside themselves.',
  over=['schedules', 'histories'], quant='every stream type, every interleaving of operations on a stream, every path through an operation',
  why='A race shows only in rare interleavings and a lock that stays held only on a rare path; the tests use each stream from one goroutine.',
  files=['charstream.go'], mech=[('locking of the stream operations', 'charstream.go: CharstreamString, CharstreamPrepend')],
  tech='lockset and lock-typestate dataflow over the SSA form of every operation, following static calls, closures and deferred calls; effect summaries for what an operation changes', level='proof',
  note='Trusts the Go type checker and SSA builder, and sync.RWMutex. A stream wraps only streams that were made before it, which orders the locks.'),
 dict(id='C22', title='A rejected rule definition leaves the grammar as it was',
  statement='When adding a rule definition or validating fails, the grammar is exactly as before: no rule, reference, root or terminal rule and no line number has changed. A definition that is accepted adds exactly one rule under a name that was not defined before; a name that is already defined is never replaced. Making a grammar returns either a grammar or an error.',
  over=['histories', 'inputs'], quant='every sequence of definitions, accepted or rejected, every path to an error',
  why='There are dozens of places where a definition can be rejected, several after nested rules have been parsed; a leftover only shows in what is validated, printed or parsed later.',
  files=['grammar.go', 'rule.go', 'rule_reference.go', 'rule_choice.go', 'rule_concatenate.go', 'rule_repetition.go', 'rule_option.go', 'rule_group.go', 'rule_block.go'], mech=[('entering a rule into the tables', 'grammar.go: ParseRule, AddUsage'), ('validation', 'grammar.go: Validate')],
  tech='effect summaries (what may change what the receiver reaches) with typestate over paths: no return of an error after a change; the rule table only changes under a name known to be absent', level='proof',
  note='Trusts the Go type checker and SSA builder. Panics are not considered here.'),
 dict(id='C03', title='A parsed text is covered completely, in order, or there is an error',
  statement='Parsing a whole text (EvalRaw) returns either an error and no nodes, or nodes which, in order, stand for pieces of the text that follow on one another and cover it from its beginning to its end: no char of the text is left out, used by two nodes or out of order. EvalEmbed returns an error or a node whose children, matches and unmatched text, cover the text in the same way.',
  over=['inputs', 'programs'], quant='every grammar without left recursion, every text, every sequence of root rule matches, however far each root rule reads ahead',
  why='Whether the pieces fit together depends on what each tried root rule read ahead and handed back, in each of any number of rounds; tests have a few texts and mostly one root rule.',
  files=['grammar.go'], mech=[('the round of root rules', 'grammar.go: EvalRaw'), ('matches and the text between them', 'grammar.go: EvalEmbed')],
  tech=AI, level='proof', note=AINOTE + ' That a match node stands for the text the match uses is C07 and C08.'),
 dict(id='C06', title='A repetition takes as many matches as its limits and the text allow',
  statement='Evaluating a repetition evaluates the rule inside again and again, each time from where the match before stopped, and stops only when it does not match, the text ends, the maximum is reached, or a match uses no text. It matches exactly when there are at least as many matches as its minimum; its node then holds the nodes of these matches, all of them, in order, never more than the maximum (if there is one), and it uses exactly the text they use. A match without text beyond the minimum need not be kept.',
  over=['inputs', 'programs'], quant='every minimum and maximum with minimum <= maximum or no maximum, every rule inside, every text',
  why='Limits, the end of the text, empty matches and read-ahead interact; tests use few limits and rules.',
  files=['rule_repetition.go'], mech=[('the loop over matches', 'rule_repetition.go: Eval')],
  tech=AI, level='proof', note=AINOTE + ' How limits are written in a definition is not considered here.'),
 dict(id='C07', title='A concatenation matches all its parts in order, an option or group its content',
  statement='A concatenation matches exactly when all its parts match one after the other, each evaluated from where the part before stopped; its node holds the nodes of all parts, in order and nothing else, and it uses exactly the text they use. A group matches exactly when the rule inside does, an option always: the node holds the node of the rule inside, if that matches, and uses the text it uses; an option whose rule inside does not match has no children and uses no text. A reference yields the node of the rule it names, and matches exactly when that rule does.',
  over=['inputs', 'programs'], quant='every number and kind of parts, every grammar without left recursion, every text',
  why='Parts read ahead, match without text or fail at the end of the text in any combination; tests use a few short concatenations.',
  files=['rule_concatenate.go', 'rule_group.go', 'rule_option.go', 'rule_reference.go'], mech=[('the loop over parts', 'rule_concatenate.go: Eval'), ('evaluating the rule inside', 'rule_group.go, rule_option.go, rule_reference.go: Eval')],
  tech=AI, level='proof', note=AINOTE),
 dict(id='C05', title='A choice takes the longest match of the first group that matches',
  statement='Evaluating a choice tries its groups in order, every alternative of a group from where the choice begins, until some alternative of a group matches; no alternative of a later group is tried then. If one match of that group uses more text than every other match of the group, it is the one taken: the node of the choice holds just its node and uses the text it uses. If several matches use the most text, the choice is ambiguous and does not match. If no alternative of any group matches, the choice does not match. The order of the alternatives within a group does not matter.',
  over=['inputs', 'programs'], quant='every number of groups and alternatives, every combination of matches and failures, however long the matches are and however far they read ahead',
  why='Which alternative wins depends on lengths of all matches and on their order; tests have two or three alternatives, and a tie that is not the longest shows only with three matches in a certain order.',
  files=['rule_choice.go'], mech=[('trying groups and picking the longest', 'rule_choice.go: Eval')],
  tech=AI.replace('rule and stream contracts', 'one arbitrary alternative is singled out and followed through the lists of results; rule and stream contracts'), level='proof',
  note=AINOTE + ' Root rules of a grammar compete in EvalRaw, which is not covered here.'),
 dict(id='C13', title='A node says which rule it is for and carries its annotations',
  statement='The node a match returns has the node type of its kind of rule (ranges give chars nodes), the name the rule reports, and exactly the annotations (virtual, non-data, tokenized) the rule reports, on every way the rule can match. A reference returns the node of the rule it names, unchanged but for the annotations: each annotation the reference has itself is toggled on that node, each it does not have is kept. No other rule changes the node of one of its parts. A rule reports the name and the annotations it was last given (EOF always has its own name).',
  over=['inputs', 'programs'], quant='every rule type, every combination of annotations of rule and reference, every path to a match',
  why='Names and annotations decide what is kept of a tree; there are eight combinations on each side of each reference and several ways to match per rule, tests look at a few.',
  files=['rule.go', 'rule_reference.go', 'rule_choice.go', 'rule_concatenate.go', 'rule_repetition.go', 'rule_option.go', 'rule_group.go', 'rule_block.go', 'rule_terminal_char.go', 'rule_terminal_chars.go', 'rule_terminal_string.go', 'rule_terminal_range.go', 'rule_eof.go'], mech=[('making the node of a match', 'rule_*.go: Eval'), ('toggling annotations', 'rule_reference.go: Eval'), ('keeping name and annotations', 'rule.go: ruleBase')],
  tech=AI, level='proof', note=AINOTE + ' Which annotations a definition gives a rule is not considered here.'),
 dict(id='C17', title='White space may come only where the match before and the demand allow',
  statement='Every rule passes the demand for leading white space it is given (suggest to skip, suggest not to skip, do not skip) on unchanged: to the first part of a concatenation, every alternative of a choice, every repeated match, what is inside a group or option, the rule a reference names and the opening rule of a text block. A later part of a concatenation is evaluated with not skipping suggested if the part before is sticky and with skipping suggested if it is not; an option that found nothing changes nothing. Inside a text block nothing may be skipped. EvalRule and the first match of EvalRaw begin with skipping suggested, EvalEmbed never skips. Result and node of a match are sticky for char, chars, range and EOF, never for string and text block, and otherwise exactly if the results of all evaluations the match took (also those that failed) are. Between two matches of root rules nothing is claimed.',
  over=['inputs', 'programs'], quant='every demand, every number and mix of sticky and other parts and empty options, every path to a match',
  why='Whether white space is accepted at a place depends on the chain of demands and stickiness through nested rules; tests cover a few chains, and a wrong demand shows only for texts with white space at that place.',
  files=['rule_concatenate.go', 'rule_choice.go', 'rule_repetition.go', 'rule_option.go', 'rule_group.go', 'rule_block.go', 'rule_reference.go', 'rule.go', 'grammar.go', 'rule_terminal_char.go', 'rule_terminal_chars.go', 'rule_terminal_string.go', 'rule_terminal_range.go', 'rule_eof.go'], mech=[('demands passed on and derived', 'rule_*.go: Eval; rule.go: mostGreedy'), ('where evaluation begins', 'grammar.go: EvalRule, EvalEmbed, EvalRaw'), ('stickiness of results', 'rule_*.go: Eval')],
  tech=AI, level='proof', note=AINOTE + ' What terminals do with a demand is C08.'),
 dict(id='C14', title='A simplification level makes exactly the passes it stands for, in order',
  statement='Grammar.Eval returns the tree of the whole text after exactly the passes of its level, in this order and on the whole tree: none at the raw level; merging of sticky nodes, then removal of redundant nodes at the basic level and at every level that has no name; the no-virtual level also removes virtual nodes, and the data-only level virtual and non-data nodes, both after merging and before redundant nodes are removed. An error of parsing is passed on with no tree.',
  over=['inputs', 'configurations'], quant='every level value, every outcome of parsing',
  why='Each level is tried with few grammars; a pass that is missing, repeated or in another place only shows for trees that have the nodes it is about.',
  files=['grammar.go', 'ast.go'], mech=[('levels', 'grammar.go: Eval; ast.go: levels')],
  tech='abstract interpretation of the SSA form: the sequence of passes on every path, for every level value', level='proof',
  note='Covers every path of Grammar.Eval. What the passes do is C15, C16 and C29. Trusts the Go type checker and SSA builder.'),
 dict(id='C15', title='Virtual and non-data nodes are removed, and nothing else',
  statement='RemoveVirtualNodes and RemoveNonDataNodes, of a tree and of a node, leave out exactly the nodes (roots of the tree, children of the node, and so on below every node that is kept) that are virtual or non-data respectively, with all that is below them, also if these are all the nodes there are; every other node stays, in its place and otherwise unchanged.',
  over=['inputs'], quant='every tree, every number of children and mix of flags',
  why='A test compares a few trees; a node that stays or is lost only shows for particular mixes (only child, adjacent flagged nodes, flagged below flagged of the other kind).',
  files=['node.go', 'ast.go'], mech=[('removal passes', 'node.go, ast.go: RemoveVirtualNodes, RemoveNonDataNodes')],
  tech='abstract interpretation of the SSA form: loop invariant that a list is what the pass makes of the first k children, shown for an arbitrary child; recursion by the same contract', level='proof',
  note='Covers every path and every list of children. Trees are finite and no node is in a tree twice. Trusts the Go type checker and SSA builder.'),
 dict(id='C16', title='Merging turns each run of adjacent sticky nodes into one node, and no others',
  statement='Merging sticky nodes, in a tree or below a node, turns every maximal run of adjacent sticky siblings into the first of them, which then has as its chars the texts of all of the run, in order, has no children, and is no longer sticky; a run may be a single node. Every node that is not sticky stays in its place with its text, and the same is done below it. The parts of a text block are not merged: each stays, is no longer sticky, and the same is done below it.',
  over=['inputs'], quant='every tree, every sequence of sticky and other siblings',
  why='Runs of any length mixed with other nodes and empty texts are far more than the tests have; text lost or joined over a boundary only shows for particular sequences.',
  files=['node.go', 'ast.go'], mech=[('merging', 'node.go: MergeStickyNodes; ast.go: MergeStickyNodes')],
  tech='abstract interpretation of the SSA form: loop invariant on the list and the run still open after the first k children, shown for an arbitrary child; texts of children as an abstract tape', level='proof',
  note='Covers every path and every list of children. Trees are finite and no node is in a tree twice. The documented meaning of the annotation for tokens is not claimed (see DESIGN.md). Trusts the Go type checker and SSA builder.'),
 dict(id='C29', title='Removing redundant nodes loses no text and no named node with text',
  statement='RemoveRedundantNodes goes through all nodes below a node (and through all roots of a tree but those that are non-data) and keeps all text and all nodes that have a name and text, in order. Of the children of a node it leaves out only those without name and text; only a child without name may be replaced by its own children, in its place; chars or children are taken over from a child only if that is the only one and has no name, and then both its chars and its children. No other node is changed.',
  over=['inputs'], quant='every tree in which a node has chars or children but not both',
  why='Names, texts and numbers of children combine in more ways than tests have, and the pass is made at every level but the raw one; a lost name or text only shows for one combination.',
  files=['node.go', 'ast.go'], mech=[('removal of redundant nodes', 'node.go, ast.go: RemoveRedundantNodes')],
  tech='abstract interpretation of the SSA form: loop invariant that a list holds what is kept of the first k children, shown for an arbitrary child; recursion by the same contract', level='proof',
  note='Covers every path and every list of children. Trees are finite and no node is in a tree twice. Trusts the Go type checker and SSA builder.'),
 dict(id='C21', title='Root rules are those no rule refers to; every name is defined',
  statement='Validating a grammar succeeds exactly if every rule name that a definition refers to is defined (EOF always is). Afterwards the root rules are exactly the defined rules no definition refers to, its own included, and the terminal rules exactly those that refer to no rule, each with its current record; what an earlier validation found is gone. Every reference in an accepted definition is counted, for the rule being defined, wherever in the definition it is. A grammar made from a text has been validated after its last rule.',
  over=['histories', 'programs', 'configurations'], quant='every set of rules and references, every order of definitions and validations, every place of a reference in a definition',
  why='Which rules are roots depends on the whole set of rules and on the order in which they were defined and validated; tests have a few small grammars and validate them once.',
  files=['grammar.go', 'rule_reference.go', 'rule_choice.go', 'rule_concatenate.go', 'rule_repetition.go', 'rule_option.go', 'rule_group.go', 'rule_block.go'], mech=[('validation', 'grammar.go: Validate'), ('counting references', 'grammar.go: AddUsage, ParseRule; rule_reference.go: inReference')],
  tech='abstract interpretation of the SSA form, following an arbitrary rule name through maps and lists; references: per-function obligations on SSA call sites and values', level='proof',
  note='Covers every path, every table of rules and every order of map iteration. Trusts the Go type checker and SSA builder and the models of maps and append.'),
 dict(id='C25', title='A text block ends at the first close that is neither escaped nor excluded',
  statement='A text block first matches its open, then goes through the text: at each place the escape (if there is one) is tried, right after what it matches the excludes (the longest that matches counts), then the close, none of them skipping white space. The block ends at the first place where the close matches, no exclude does, and no escape came just before; it uses the text up to and with the close (up to but without it if the close is to be reused). It fails exactly if the open does not match, if an exclude matches where no escape came just before or several excludes tie, or if the text ends first. An exclude, or else the close, that matches right after an escape is content, and so is a single char where nothing matches. The node holds the node of the open, one node with the content, and the node of the close unless it is reused; the content is the text between, in order, of which at most chars of escapes are left out or doubled.',
  over=['inputs', 'programs'], quant='every open, escape, list of excludes and close, however far each reads ahead, every text',
  why='Escapes, excludes and closes of any length that overlap, follow on one another or match nothing combine in more ways than tests have; a block that ends too late or too early only shows for one combination.',
  files=['rule_block.go', 'rule.go'], mech=[('the loop over the content', 'rule_block.go: Eval'), ('the longest exclude', 'rule.go: mostGreedy')],
  tech=AI, level='proof', note=AINOTE + ' An escape that uses no text escapes nothing. How a block is written in a definition is not considered here.'),
 dict(id='C19', title='Nothing that is wrong with a definition is passed over',
  statement='If any part of a definition cannot be read (a part inside brackets, an alternative, an escape or exclude of a text block, a unicode escape, a repetition count), the whole definition is refused with an error, and so is a grammar text or file with such a definition. A definition that is accepted was read to the end of the text given for it, and gives a rule made from at least one char. Reading the inside of something ends only where the text ends or at a char that was given to stop at. Of a grammar text no line is left out but those that are empty (after trimming) or begin with //.',
  over=['inputs', 'programs'], quant='every text of a definition or grammar, every depth of nesting, every place at which reading can fail',
  why='A mistake in a definition can be anywhere in any nesting; tests have a few mistakes at the top. A definition that is accepted without one of its parts gives a grammar that quietly accepts other texts.',
  files=['grammar.go', 'rule_reference.go', 'rule_choice.go', 'rule_repetition.go', 'rule_option.go', 'rule_group.go', 'rule_block.go', 'rule_terminal_char.go', 'rule_terminal_range.go', 'rule_terminal_string.go'], mech=[('reading definitions', 'grammar.go: parse, parseOne, ParseRule, AddRule, NewGrammarFromString; rule_*.go: in...')],
  tech='abstract interpretation of the SSA form: each function that reads a rule from a stream is analysed on its own, calls among them by the contract that is shown for each', level='proof',
  note='Covers every path of every function that reads definitions and every text. That what is written is what the rule does is not part of this. Trusts the Go type checker and SSA builder and the models of streams and of strings.'),
 dict(id='C20', title='Annotations mark exactly the part that follows them',
  statement='Between the parts of a definition only white space, comments (from // to the end of the line) and annotation symbols are passed over; any other char is refused or begins a part. A part (for a choice sign: the choice made with it) is marked virtual, non-data or tokenized exactly if the symbol of that annotation stands between the part before and this part, wherever white space and comments are. Annotations with no part behind them are refused. What the methods of a rule report as its annotations is what was set, for every type of rule.',
  over=['inputs', 'programs'], quant='every combination of annotations, every kind of part, every order of symbols, white space and comments',
  why='There are eight combinations of annotations, ten kinds of parts and two places that read them; an annotation that is lost, swapped or carried over only shows for one combination, and changes which nodes are kept.',
  files=['grammar.go', 'rule.go', 'rule_choice.go'], mech=[('reading annotations', 'grammar.go: parse, parseOne'), ('keeping them', 'rule.go: ruleBase')],
  tech='abstract interpretation of the SSA form: a monitor of the chars passed over between parts, with the annotations that are due as its state', level='proof',
  note='Covers every path of the functions that read parts of any kind. Trusts the Go type checker and SSA builder and the models of streams and lists.'),
 dict(id='C30', title='A definition that is accepted means what is written',
  statement='The rule that reading a definition gives is made of exactly the parts that are written, in their order and in the roles their place gives them. [ ], { } and ( ) give an option, repetition or group of the one rule between them. A repetition may occur any number of times (nothing behind }, or *), at least once (+), or as often as the numbers in < , > say: they are the decimal numbers whose digits are written (white space among them does not count), none stands for no bound, and a greatest number that is less than the least is refused. A choice has the rule before its first sign and the one behind each sign as alternatives; each > begins a new group, | does not. In < > the first part is the open, the second the escape unless it is the last or follows ^, each part behind ^ an exclude, the last part the close; a part other than the last ends at white space; ! before the > keeps the text of the close. Several parts in a row are a sequence of all of them, one part alone is that part itself.',
  over=['inputs', 'programs'], quant='every definition, every nesting, every number of parts, groups, excludes and digits, every mix of white space',
  why='Tests have definitions of a few parts. A part that is dropped, doubled or put in another role for one mix of parts quietly changes the language a grammar describes.',
  files=['grammar.go', 'rule_choice.go', 'rule_repetition.go', 'rule_option.go', 'rule_group.go', 'rule_block.go', 'rule_concatenate.go'],
  mech=[('rules made of rules', 'grammar.go: parse, parseOne; inOption, inGroup, inRepetition, inRepeatSpec, inChoice, inBlock')],
  tech='abstract interpretation of the SSA form: an automaton for each kind of rule follows the chars taken and the rules read; what is returned is compared with what was followed, calls among readers by contract',
  level='proof', note='Covers every path of every function that reads a rule and makes one of other rules. What is between parts is C20, what terminals hold is C31, that failures are not dropped is C19. That a definition is accepted at all when it is well formed is not part of this. Trusts the Go type checker and SSA builder and the models of streams, lists, strings and of strconv.'),
 dict(id='C31', title='Terminals and references hold the chars that are written',
  statement='A terminal between single quotes stands for exactly the chars between them, one between double quotes likewise as a string; a backslash is not one of them but makes the char behind it stand for itself, also a quote or a backslash; a backslash with u and exactly four hexadecimal digits, in quotes or on its own, stands for the char with that number. One char between single quotes is a char, several are chars; a char, a - directly behind it and a char in either form is the range from the first to the last. A reference is to the whole run of letters, digits and underscores that is written (it begins with a letter or underscore), and exactly the name EOF stands for the end of the text. A terminal that is not closed is refused.',
  over=['inputs', 'programs'], quant='every text of a terminal, every place of escapes and numbers in it, every length, every name',
  why='Tests have short texts with few escapes. An escape, number or quote that is taken wrongly at one place makes a rule that matches another text than the one written.',
  files=['rule_terminal_char.go', 'rule_terminal_chars.go', 'rule_terminal_string.go', 'rule_terminal_range.go', 'rule_reference.go', 'rule_eof.go'],
  mech=[('terminals', 'inChar, inString, inUnicode, inRange, parseUnicodeEscape'), ('names', 'inReference')],
  tech='abstract interpretation of the SSA form: an automaton follows each char taken; the chars that count are numbered, and the text of the rule returned must be exactly these',
  level='proof', note='Covers every path of every function that makes a terminal rule or a reference. Trusts the Go type checker and SSA builder, the models of streams and texts, and that text is collected faithfully by strings.Builder (a number in D800-DFFF is no char and is not handled apart).'),
 dict(id='C23', title='Every node has the position of the first char of its text',
  statement='In a match, the position of a node is the position (line and column, as the stream has it) of the first char of the node\'s text: white space that was skipped before the text does not count, white space the text itself starts with does. A node without text, also the end of the text, has no position, and a part without text does not take the position away from the parts behind it. The content of a block has the position of the first char behind its open part, none where the text ends there. Positions are asked for only of chars that have been read. MergeStickyNodes, RemoveVirtualNodes, RemoveNonDataNodes and RemoveRedundantNodes, on a node and on an AST, never change the position of a node. (Nodes that EvalEmbed makes of text between matches, and blocks whose open part matches without text, are not covered.)',
  over=['inputs', 'programs'], quant='every rule of every kind, every text, every suggestion on leading white space, every number of chars read ahead',
  why='Tests look at positions of small trees whose first part always matches. Positions are worked out from counts of chars read, skipped and given back; a count that is off shows only with white space, reading ahead or empty parts in the right place, and then every error message and tool that points into the text is wrong.',
  files=['rule_terminal_char.go', 'rule_terminal_chars.go', 'rule_terminal_range.go', 'rule_terminal_string.go', 'rule_eof.go', 'rule_group.go', 'rule_option.go', 'rule_repetition.go', 'rule_concatenate.go', 'rule_choice.go', 'rule_block.go', 'node.go', 'ast.go'],
  mech=[('evaluation', 'Eval of every rule: Node.Position'), ('simplification', 'MergeStickyNodes, RemoveVirtualNodes, RemoveNonDataNodes, RemoveRedundantNodes')],
  tech='abstract interpretation of the SSA form: a position is followed as the index of the char it is of and compared at every match with where the text of the node starts; an effect analysis over the call graph for the simplifying methods',
  level='proof', note='Assumes for nested evaluations what it shows for each rule, and of streams what C09 and C32 show.'),
 dict(id='C32', title='Line and column of a char are what the line breaks before it make them',
  statement='A stream on a text gives for the next char (Position), and for every char that has been read (PositionLookup by index, counted from the begin of the text), line and column: the line is one more than the number of line breaks before the char, the column is how many chars it is behind the last of them, or one more than its index if there is none; a line break itself belongs to the line it ends. This holds after every sequence of Next, Peek, Match, SkipSpaces, Position and PositionLookup, at any place. At the end of the text Position gives none; PositionLookup gives none for a char that has not been read, the first char apart, nor for a negative index. A stream with chars put in front of another one gives the positions these chars have in the stream below.',
  over=['inputs', 'histories'], quant='every text, every number and place of line breaks, every sequence of operations before, every index',
  why='Tests look at a few texts with few lines. The list of line ends has a last entry with a meaning of its own, which depends on what was read or looked at last; only certain sequences of operations around a line break bring out that it is wrong.',
  files=['charstream.go'],
  mech=[('line ends', 'positionMap.update, positionMap.lookup'), ('streams', 'CharstreamString and CharstreamPrepend: Position, PositionLookup')],
  tech='abstract interpretation of the SSA form: an inductive invariant on the list of line ends (the line breaks of the text up to a mark, then the char before the mark) for every operation; what loops find out about the entries they pass is shown for an arbitrary one of them',
  level='proof', note='Covers every path of every operation of every stream type. Trusts the Go type checker and SSA builder and the models of slices; ints are taken as unbounded.'),
 dict(id='C26', title='Reading definitions and evaluating texts never end in a run-time error',
  statement='Whatever definitions of rules a grammar is given (well formed or not) and whatever text is evaluated with the rules that come of them, none of these ends in a run-time error (use of nil, index or slice out of bounds, type assertion that fails, division by zero, entry put in a nil map): adding and parsing rules, making a grammar of definitions, Validate; Eval of every kind of rule; Eval, EvalRaw, EvalRule and EvalEmbed of a grammar; the operations of the streams on texts, their positions and position lookup; the simplifications of trees and the printing of nodes; names and descriptions of rules. Not meant are Serialize, memory or stack that runs out (left recursion), nil given as an argument, and trees that somebody made by hand with nil nodes in them.',
  over=['inputs', 'programs', 'histories'], quant='every definition, every rule that can come of one, every text, every sequence of stream operations, every tree that evaluation gives',
  why='Tests give a few definitions that are well formed and a few that are not. A crash needs the one text that is too short, the list that happens to be empty or the match that used nothing, and a library that crashes takes its user down.',
  files=['grammar.go', 'rule.go', 'charstream.go', 'node.go', 'ast.go', 'rule_choice.go', 'rule_repetition.go', 'rule_option.go', 'rule_group.go', 'rule_block.go', 'rule_concatenate.go', 'rule_terminal_char.go', 'rule_terminal_chars.go', 'rule_terminal_string.go', 'rule_terminal_range.go', 'rule_reference.go', 'rule_eof.go'],
  mech=[('reading definitions', 'grammar.go and the readers in rule_*.go'), ('evaluating', 'Eval of every rule, EvalRaw, EvalEmbed'), ('texts and trees', 'charstream.go, node.go, ast.go')],
  tech=AI + '; every instruction that may end in a run-time error is an obligation wherever it is met; that parts of rules and entries of tables are there is shown where these are made',
  level='proof', note='Every function reachable from the operations named is covered, with arbitrary rules, texts and states of streams. Trusts the Go type checker and SSA builder and the models of slices, strings, maps and of the few library functions used; ints are taken as unbounded. ' + AINOTE),
 dict(id='C04', title='Evaluating a text and reading definitions always come to an end',
  statement='Evaluating a text of finite length comes to an end, whatever the rules are, also with rules that can match without using any text, as long as no rule is reached again at a char while it is being evaluated there (left recursion); reading definitions comes to an end whatever they hold. Every loop of the library goes over a list, a text or a map, counts to a limit, or gets further in each round (text is used or taken, what is left gets less); the evaluation of a rule does not start the evaluation of the same rule at the place where it began itself; functions that read definitions come back to themselves only after a char was taken. Not meant are the command, and recursion in passes over trees and in printing.',
  over=['inputs', 'programs'], quant='every text, every rule that is not left recursive, every definition, every loop',
  why='A loop that makes no progress shows only with the one text or definition that leads there: a repetition of something that matches nothing, a comment without end, an escape before nothing. The program that uses the library then hangs.',
  files=['grammar.go', 'charstream.go', 'rule.go', 'rule_repetition.go', 'rule_block.go', 'rule_choice.go', 'rule_reference.go', 'rule_terminal_char.go', 'rule_terminal_string.go'],
  mech=[('loops of evaluation', 'RepetitionRule.Eval, BlockRule.Eval, EvalRaw, EvalEmbed'), ('loops and recursion of reading', 'parse, parseOne, the readers in rule_*.go'), ('loops of streams', 'SkipSpaces, Match, lookup')],
  tech='termination measures over abstract interpretation of the SSA form: in each round of a loop the values at its head are compared with those when it is reached again, and an order of measures is sought in which each round lowers one and raises none before it; for calls among readers the graph of those that may happen before a char is taken must have no cycle',
  level='proof', note='Covers every loop of the library package; a loop of which nothing is known is reported. That nested evaluations end is taken for granted for each rule (induction, which left recursion defeats). Trusts the Go type checker and SSA builder and the models of streams, texts and lists.'),
 dict(id='C24', title='Printed rules read back as the same rules',
  statement='What String of a rule, or Serialize of a grammar, gives can be read as a definition and yields a rule that matches the same texts.',
  over=['programs'], quant='every rule of every kind, nested in every way',
  why='Printing is used to store grammars; a quote, an escape or a limit printed wrongly in one rare rule changes the language.',
  files=['rule_terminal_char.go', 'rule_terminal_string.go', 'rule_terminal_range.go', 'rule_repetition.go', 'grammar.go'],
  mech=[('printing', 'String of every rule; Serialize')],
  na='The property composes two programs over texts of unbounded nesting: what one prints is the input of the other. It needs the language printed (a context free one, with escapes worked out by library calls) to be related to the parser for it; the domains here follow one text with one automaton and cannot carry that relation through the recursion. What is read is decided in C30 and C31; three defects in printing found by hand are repaired.'),
 dict(id='C28', title='The command does what its flags say',
  statement='The xbnf command reads grammar and rules from the files and flags given, evaluates the data with the level asked for, prints the result and tells failures by its exit status.',
  over=['configurations', 'inputs'], quant='every combination of flags, every content of the files',
  why='Some combination of flags, rules given with -rule alone for one, is used by nobody who tests.',
  files=['main/xbnf.go'],
  mech=[('command', 'main/xbnf.go')],
  na='There is no documented contract for most combinations of flags to decide against, and the behaviour is made of flag parsing, file system and terminal calls outside the repository of which no sound static model is in reach here. The one defect found by reading is repaired.'),
 dict(id='C27', title='The time an evaluation takes is bounded by the grammar and the text',
  statement='The time and memory an evaluation takes are bounded by a function of grammar and text that is not worse than backtracking demands.',
  over=['inputs', 'programs'], quant='every rule, every text',
  why='Some grammars take exponential time on short texts.',
  files=['rule_choice.go', 'rule_block.go'],
  mech=[('evaluation', 'Eval of every rule')],
  na='No bound is promised by the project, and backtracking without memory is exponential in the nesting of choices by design: there is nothing to hold the code to.'),
]

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run from /verif)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe,hook_needed=None,**({'state':state} if state else {}))))

p('C01','Parsing is total: every byte string gets a tree or an error, never a crash',
 'For every byte string, parsing it as a text terminates without panicking and yields either an AST or an error, never both or neither; the AST parse and the parse-tree parse of the same text agree on which. Asking for the word at any offset inside the text likewise yields a word or an error. An error always carries a message and an offset inside the text, and a text is never accepted with part of its bytes (such as invalid UTF-8) left out.',
 ['inputs'],'all byte strings: grammatical texts in every notation, mutated texts, random bytes, invalid UTF-8, deep nesting, long texts; all offsets',
 'The tests parse ~150 hand-written texts; the crash on "jai4" (a tone number after a diphthong) and the silent truncation at invalid UTF-8 were both present with all tests passing.',
 ['ast/parser.go','ast/toaq.go','ast/toaq.peggy','ast/nodes.go'],
 [('generated packrat parser and its actions','ast/toaq.go'),('Parser.Text/Tree/Word','ast/parser.go'),('addTone and the other action helpers','ast/nodes.go')],
 ['ast.NewParser','Parser.Text','Parser.Tree','Parser.Word','Error.ByteOffset'])
p('C02','Conformance to the Toaq grammar: acceptance, constituent structure and AST',
 'A text is accepted exactly when the Toaq grammar (as published in the repository\'s PEG) derives it, with PEG ordered choice deciding ambiguities. For an accepted text the parse tree has the constituent structure the grammar prescribes, and the AST has the node types, fields, words and word order that correspond to it: every grammatical role (quantifier, focus, relative clause, connective, linking word, terminator, sentence prefix, illocution, quoted phrase, free modifier) is filled by the constituent written in that place, and free modifiers and spaces hang on the word they follow.',
 ['inputs'],'all texts; all token sequences over the word classes of the language',
 'The tests check a few examples per construct, mostly by re-printing them; which of two alternatives wins, and how constructs nest in combination, is quantified over all texts.',
 ['ast/toaq.peggy','ast/toaq.go','ast/nodes.go','ast/ast.go','ast/parser.go'],
 [('grammar rules and actions','ast/toaq.peggy'),('AST construction helpers','ast/nodes.go'),('mod attachment methods','ast/ast.go')],
 ['Parser.Text','Parser.Tree'])
p('C03','Lossless parsing: words and spaces of the AST reproduce the text in order',
 'Visiting the words of the AST of any accepted text in visiting order yields exactly the words, spaces and punctuation of the text, each once, in text order, covering every byte: their offsets are contiguous from 0 to the end of the text. The concatenation of their spellings is the text with tones written as precomposed diacritics on the first vowel of the syllable and i without tone as dotless ı, so that re-parsing it gives an equal AST.',
 ['inputs'],'all accepted texts, in every mix of notations and with free modifiers and punctuation anywhere they are allowed',
 'The tests compare the re-printed text for a few inputs without parentheticals; white space after a parenthetical was moved before its ki with all tests passing.',
 ['ast/ast.go','ast/nodes.go','ast/visit.go','ast/toaq.peggy'],
 [('mod attachment','ast/ast.go'),('Visit child order','ast/visit.go'),('word actions with S and E','ast/toaq.peggy')],
 ['Parser.Text','ast.Visit','Word.T/S/E'])
p('C04','All spellings of a tone parse to the same AST',
 'The notations for a tone are interchangeable: a tone marker or tone number after the first vowel or at the end of the syllable, a precomposed letter, a combining diacritic, and (for the rising-glottal tone) a breve, as well as i or ı. Rewriting any syllable of any text from one notation into another, or adding and removing the optional spaces between words, neither changes whether the text is accepted nor the AST it yields, up to offsets and spaces (and the kept precomposed breve letter). The question mark of moq is not a tone.',
 ['inputs'],'all texts x all assignments of notations to their syllables',
 'The tests use the marker-at-end notation nearly everywhere; the notations multiply per syllable.',
 ['ast/toaq.peggy','ast/toaq.go','ast/nodes.go','tone/tone.go'],
 [('syllable and vowel rules','ast/toaq.peggy'),('addTone','ast/nodes.go'),('Diacritic table','tone/tone.go')],
 ['Parser.Text','ast.Equal'])
p('C05','Syntax errors point at the furthest position the parse reached',
 'For every rejected text the reported byte offset is the furthest position at which the grammar failed to continue: the text before it is a prefix the parser could read, and never beyond the first rune that can occur in no Toaq text. The message gives the line and column of that offset (lines from 1, columns counted in runes), quotes the text found there or says EOF, and starts with the parser\'s file path if one is set; message and failure tree name everything the grammar could have continued with at that offset, and nothing else; asking for the offset takes time in proportion to the size of the failure tree, not exponential time.',
 ['inputs'],'all rejected texts: truncations, insertions of illegal runes at every offset, token mutations, multi-line texts',
 'No test looks at an error position or message at all.',
 ['ast/parser.go','ast/toaq.go'],
 [('parse and byteOffset','ast/parser.go'),('generated Accepts/Fail functions','ast/toaq.go')],
 ['Error.Error','Error.ByteOffset','Error.Tree'])
p('C06','Node spans: every AST node covers exactly the words it consists of',
 'For every node of the AST of an accepted text, Start is the byte offset of its first own word and End is the exclusive offset of the end of its last own word (trailing spaces and free modifiers that merely follow it do not count), and asking for them never panics. Hence a child lies within its parent, siblings are in order and disjoint, and a word\'s span is exactly its spelling in the text. (The empty list of an empty text has no span.)',
 ['inputs'],'all nodes of all accepted texts, including the empty text',
 'The tests never call Start or End on composite nodes; Predication.End panicked on every predication without terms.',
 ['ast/ast.go','ast/toaq.peggy'],
 [('Start and End methods','ast/ast.go')],
 ['Node.Start','Node.End'])
p('C07','A parser can be reused, and parsers are independent of one another',
 'Any sequence of AST, parse-tree and word requests on one parser gives each request the same result as on a fresh parser, whether it succeeds or fails. Results are fresh: modifying a returned AST, parse tree, error or word changes no other result, earlier or later. Distinct parsers, and read-only operations on a shared AST, may be used from concurrent goroutines with no data race and with the results of a sequential run.',
 ['histories','schedules','inputs'],'all call sequences on one parser x all texts; all interleavings of goroutines with their own parsers',
 'No test calls a parser twice or from two goroutines.',
 ['ast/parser.go','ast/toaq.go','tone/tone.go'],
 [('memo tables reset between calls','ast/parser.go'),('package-level tables that are only read','tone/tone.go')],
 ['Parser.Text','Parser.Tree','Parser.Word'],
 [dict(name='_Parser memo maps',meaning='memoised rule results, nodes, failures and actions',where='ast/toaq.go')])
p('C08','Word-at-a-time reading agrees with reading the whole text',
 'Reading words one after the other from offset 0 of an accepted text (after any leading space), each at the offset where the last one ended, succeeds up to the end of the text and yields exactly the words of the AST of the text, with the same spelling and offsets and the white space that follows attached. At an offset that does not begin a word it returns an error located at the furthest failure at or after that offset, which names what was wanted there; the count of bytes parsed is that of the word and its trailing white space.',
 ['inputs'],'all accepted texts in all notations, all offsets of all texts',
 'The tests never call Word.',
 ['ast/parser.go','ast/toaq.peggy','ast/toaq.go'],
 [('word rule','ast/toaq.peggy'),('Parser.Word','ast/parser.go')],
 ['Parser.Word','Parser.Text'])
p('C09','AST traversal visits every node exactly once, in order, with balanced exits',
 'Traversing an AST calls the visitor once for every node reachable from the root and for nothing else (absent optional parts are not visited), parents before children, children in text order, and each word, connective and LU node by way of its single child of the general type. For every node whose visitor is non-nil the children are visited with the returned visitor, which then gets exactly one call with nil; a nil visitor skips exactly that subtree.',
 ['inputs','programs'],'all ASTs, all sub-nodes as roots, all pruning and visitor-switching behaviours of the visitor',
 'The tests visit a few dozen trees with a visitor that never prunes or changes.',
 ['ast/visit.go'],[('Visit','ast/visit.go')],['ast.Visit'])
p('C10','AST equality is structural equality that ignores offsets and nothing else',
 'Equality of ASTs is reflexive, symmetric and transitive and never panics on any two nodes. Two nodes are equal exactly when they have the same type, the same spelling and free modifiers in every word, the same optional parts present, and equal children in every position; offsets are ignored. In particular any change of a single word, of a modifier, or removal of an optional part makes them unequal.',
 ['inputs'],'all pairs of nodes of all ASTs; all single-point mutations of an AST',
 'The tests compare a few pairs per node type; every field of every type in every context is quantified over.',
 ['ast/equal.go'],[('Equal, copEqual, wordEqual','ast/equal.go')],['ast.Equal'])
p('C11','The bracketed form shows exactly the words and the nesting of the AST',
 'The bracketed string of an AST contains the words of the AST (interjections and parentheticals included, whitespace and punctuation excluded) in order. It has one pair of brackets around exactly each group of two or more visible children, cycling through the four bracket kinds by depth, with single spaces between items, so that the nesting of the AST can be read back from it.',
 ['inputs'],'all ASTs and all their sub-nodes',
 'The tests compare a handful of bracketed strings.',
 ['ast/braces.go'],[('braces, braceKids','ast/braces.go')],['ast.BracesString'])
p('C12','ASCII conversion of an AST is faithful and idempotent',
 'Converting the words of an AST to ASCII leaves everything but the spellings unchanged, spells every word with plain letters and one tone marker after each toned syllable, and is idempotent. The ASCII spelling re-parses to the AST the original text parses to, up to offsets (and a kept breve becoming the caron of the same tone).',
 ['inputs'],'all accepted texts in all notations and letter cases',
 'The test converts one sentence.',
 ['ast/ast.go','tone/tone.go'],[('ToASCII','ast/ast.go'),('tone.ToASCII','tone/tone.go')],['ast.ToASCII','tone.ToASCII'])
p('C13','Tone algebra: reading, stripping, replacing and respelling tones agree',
 'For every word spelled with precomposed letters in any letter case: replacing the tone of the first syllable changes nothing but that tone, reading it back gives the tone that was set, setting the current tone or setting twice changes nothing more, and setting no tone removes it. The ASCII form writes each tone as one marker at the end of its syllable, stripping removes all tones and keeps letters and case, both are idempotent on their own output, and all four functions return on any string without panicking, also when goroutines call them at once.',
 ['inputs'],'all words of the language (all syllables x tones x cases x lengths) and arbitrary strings',
 'The tests sample about 30 words; an upper-case final Q got its marker in the wrong place.',
 ['tone/tone.go'],[('ToASCII, Strip, WithTone, Tone','tone/tone.go'),('Diacritic table','tone/tone.go')],['tone.ToASCII','tone.Strip','tone.WithTone','tone.Tone'])
p('C14','Interpretation is total on supported texts and nil only for fragments',
 'Interpreting the AST of any accepted text terminates; it returns a statement if the text has at least one sentence and nil exactly when it has only fragments. It panics only with a message that names a connective the interpreter does not support in that place (roi or another unsupported connective word), never with a run-time error; the statement it returns can be printed, visited and stripped of AST links without panicking.',
 ['inputs'],'all accepted texts',
 'The tests interpret ~110 texts; connecting a content or relative clause to a statement always crashed.',
 ['logic/interp.go','logic/simplify.go','logic/string.go','logic/visit.go'],
 [('interpreter methods','logic/interp.go'),('simplify','logic/simplify.go')],['logic.Interpret','logic.String','logic.PrettyString','logic.NillOutAST'])
p('C15','Interpretation is a pure, deterministic, concurrency-safe function of the AST',
 'Interpreting a text leaves its AST exactly as it was, and interpreting it again, after other texts, or concurrently with other interpretations of the same or other ASTs gives the same statement with no data race. Statements are independent: changing one result affects no other, and a statement\'s links to the AST point to nodes of the text\'s AST or to nodes made from it, within the text\'s span.',
 ['histories','schedules','inputs'],'all texts x all call histories and interleavings',
 'No test interprets an AST twice or concurrently; argument lists were overwritten in place during interpretation.',
 ['logic/interp.go','logic/simplify.go','tone/tone.go'],
 [('per-call interpreter state','logic/interp.go'),('copying of term lists','logic/interp.go')],['logic.Interpret'])
p('C16','Variables of a statement are well scoped and consistently numbered',
 'In every statement each variable either refers to a binding whose restriction or scope it occurs in, and carries that binding\'s number, or is free (refers to no binding). Different bindings have different numbers and no free variable shares a number with a binding or with another free variable; every binding has a scope, and no binding is lost while a variable still refers to it.',
 ['inputs'],'all accepted texts: all combinations of quantifiers, variables, anaphora, lifting, connectives, clauses, adverbs, prepositions and simplification',
 'The tests check a few scopings; a dozen interactions of lifting and simplification left variables referring to bindings they were not within.',
 ['logic/interp.go','logic/simplify.go'],
 [('hasFreeVars, liftedScope, clearHiFreeVarDefs','logic/interp.go'),('sub, lambdaSub, sequenceVarNums','logic/simplify.go')],['logic.Interpret'])
p('C17','Predications: every argument reaches its place of the right predicate',
 'The interpretation of a predication applies the predicate the words name (lower case, without tones; serial predicates composed left to right, mea and jeqtu as the operators for among and equals) to its arguments in order: linked arguments (fi, go, cu, ta) take places 1 to 4, the others fill the remaining places from the left, and a gap is left open. Arguments of a pa-prenex come before those of the predication, arguments of a bi-prenex are not passed on; nothing is dropped, added, duplicated or moved.',
 ['inputs'],'all predications: all argument counts, linking words, serial predicates, prenexes and nestings',
 'The tests cover one example per construct.',
 ['logic/interp.go','logic/simplify.go'],
 [('prenexStatement, orderArguments, goPos','logic/interp.go'),('wordPred, serialPredicate','logic/interp.go')],['logic.Interpret'])
p('C18','Connectives distribute over the statement they occur in',
 'ru, ra and ri become conjunction, disjunction and connective question, in afterthought and forethought form, between sentences, statements, predicates, arguments, termsets, adverbs, prepositions and their arguments, relative and content clauses. Connected arguments and predicates distribute, leftmost argument outermost, so that the whole statement is repeated with each alternative in place; roi instead makes one plural argument of its parts, and successive sentences are conjoined.',
 ['inputs'],'all texts with any combination and nesting of connectives in all connectable places',
 'The tests connect at most two alternatives in one place; with two connected arguments one of the four combinations was lost.',
 ['logic/interp.go','logic/simplify.go'],
 [('prenexStatement, distributePredication, serialPredicateLeft/Right, roi','logic/interp.go')],['logic.Interpret'])
p('C19','Quantifiers, restrictions and anaphora bind what the language says they bind',
 'Each quantifier word yields its quantifier with the argument\'s predicate and relative clause as restriction, scoping over the rest of the statement in order of appearance. A definite argument is bound once at the top of the text, even if distribution repeats it, unless it refers to a variable bound further in, when it is bound in place; a hi-argument is bound at the top of its clause. A repeated variable refers to its innermost binding in scope (free if there is none), hoa to the argument or lu-phrase whose clause it is in, a relative clause\'s predicate without arguments takes the bound variable, and the focus of an argument is kept on its variable (or, in a bi-prenex, on its binding).',
 ['inputs'],'all texts with any combination and nesting of quantifiers, variables, relative clauses and hoa',
 'The tests cover a few dozen scopings out of the combinations of all constructs.',
 ['logic/interp.go','logic/simplify.go'],
 [('predicateArgument, varArgument, hoaArgument, relativeClause, subordinate','logic/interp.go'),('addHoa','logic/simplify.go')],['logic.Interpret'])
p('C20','Clauses, adverbs, prepositions and quotes embed what they contain',
 'A content clause contributes its statement as a propositional argument, a lu- or li-predicate its statement as a predicate that is applied to its arguments where their number matches, an adverb or preposition applies to the rest of the statement as a proposition (a preposition with its own argument second), po, jei, mi, shu and mo apply the relation they name to their complement, and a quotation contains the spelling of exactly the words quoted. Simplification only removes definitions and applications it has substituted.',
 ['inputs'],'all texts with any nesting of clauses, adverbs, prepositions and quotes',
 'The tests cover about 30 examples without nesting.',
 ['logic/interp.go','logic/simplify.go'],
 [('makeContentPred, makeLambda, preposition, adverb, poPredicate','logic/interp.go'),('sub, lambdaSub, swap','logic/simplify.go')],['logic.Interpret'])
p('C21','Meaning-preserving rewrites of a text do not change its interpretation',
 'The interpretation, up to names of variables and quoted spelling, is unchanged when a text is respelled (tone notation, letter case, spacing and punctuation), when interjections, vocatives, parentheticals, sentence prefixes, illocutions or optional terminators are added, when an afterthought connection is turned into the forethought one or arguments are moved between a predication and a pa-prenex before it, and (up to that renaming) when a variable or a predicate word is replaced by a new one throughout. Interpreting two texts one after the other relates to interpreting them apart as conjunction does.',
 ['inputs'],'all accepted texts x all such rewrites at every place they apply',
 'The tests have no pairs of equivalent texts.',
 ['logic/interp.go','logic/simplify.go','ast/toaq.peggy'],
 [('hasText, wordPred, splitVar','logic/interp.go'),('statement','logic/interp.go')],['logic.Interpret','logic.String'])
p('C22','The printed formula is a faithful rendering of the statement',
 'Printing a statement shows its whole structure in order: quantifiers, restrictions, connectives, predicates, arguments (an open place as a dot), pluralities, quotes and propositions, with parentheses wherever a connective joins a binding or a different connective. Distinct variables get distinct names and all occurrences and the binding of one variable the same name (the initial of the predicate of its restriction, X without one, U if free, with a number where several share it), so that the statement can be read back from the string; the pretty form differs only in the iota and the letter style, and printing never changes the statement.',
 ['inputs'],'all statements',
 'The tests compare ~110 strings; with many variables of the same initial or unusual structures nothing is compared.',
 ['logic/string.go'],[('print methods, varRune, parens','logic/string.go')],['logic.String','logic.PrettyString'])
p('C23','HTTP server: every request gets the answer for its own text',
 'A POST of any body is answered with 200 and one JSON object that holds either the syntax error, or the bracketed form, AST, text, parse tree and pretty formula (or "fragment", or a report that the interpreter failed) of exactly that body, as the library computes them. Other methods get 405, GET / the page (or an error status if its file is missing), and the fonts it uses are served on the port that PORT gives, or 8080; no request, malformed or concurrent, crashes the server, races, or changes the answer to another.',
 ['inputs','schedules','histories'],'all request bodies and methods, all interleavings of concurrent requests',
 'The server has no tests.',
 ['server/server.go','ast/parser.go','logic/interp.go'],[('rootHandler, safeInterp','server/server.go')],['HTTP on $PORT'])
p('C24','Chat bot: every command message gets one reply, in order, and nothing stops it',
 'For every message that begins with the command prefix the bot sends exactly one reply to the channel it came from, in order: the syntax error, or the bracketed form and the pretty formula (or "fragment", or a report that the interpreter failed) of exactly the rest of the message. Other messages and events get no reply, messages relayed by the bridge are read without their sender prefix, channels do not affect one another, and no message makes the bot exit.',
 ['inputs','histories','schedules'],'all sequences of chat events on any number of channels',
 'The bot has no tests.',
 ['bot/bot.go'],[('run, parse, fixBridgeMessage','bot/bot.go')],['chat.Channel.Receive','chat.Channel.Send'])
p('C25','Dictionary loading returns every entry under its normalised word, or an error',
 'Loading posts the given query as JSON and returns, for a successful response, exactly one entry per distinct word, keyed by and holding the word in lower case ASCII without tones, with definition, author and score unchanged (the last of several entries for one word wins). Anything else (an unreachable server, a malformed, truncated or empty body, a failure response with or without a message, a response without data) gives an error and no dictionary, never a panic; in the built-in dictionary every key equals its entry\'s word.',
 ['inputs','fault_sequences'],'all server responses and transport faults',
 'The only test checks that the built-in dictionary is not empty.',
 ['dict/dict.go','dict/words.go','tone/tone.go'],[('Load','dict/dict.go')],['dict.Load','dict.Words'])
p('C26','Command line: prints the analysis of its input or the syntax error',
 'Given a text on standard input or in a file named on the command line, the program prints the parse tree, the AST, the text, the bracketed form, the statement and the formula (or "fragment") of exactly that input, as the library computes them, and exits with 0. For a text with a syntax error it prints the failure tree and the error prefixed by the file path, and for a file that cannot be opened a message, and exits with 1.',
 ['inputs','configurations'],'all inputs, on standard input and as files',
 'The program has no tests.',
 ['main.go'],[('main','main.go')],['process stdout and exit code'])
p('C27','Dictionary generator: writes Go source that is exactly the loaded dictionary',
 'After the generator asked the dictionary server for everything, the file it wrote with exit code 0 compiles in the place of words.go and makes Words equal, entry for entry and byte for byte, to what loading returned, whatever characters words, definitions and authors hold; the same answer gives the same file, except for its time stamp. When the server cannot be asked or answers with a failure, the generator prints the reason and exits with a failure, and the earlier file stays as it was; a path that cannot be written is such a failure too.',
 ['inputs','fault_sequences'],'all dictionary contents and server failures',
 'The generator has no tests, and its output is only ever built from the one real dictionary.',
 ['dict/main.go','dict/dict.go'],[('main, gofmt','dict/main.go')],['the written file','process stdout and exit code'])
p('C28','Web page: shows the answer for the last submitted text, as plain text',
 'When the answer to the last click arrives, the page shows either the error or, under Braces, Logic, Text, AST and Parse, the results for exactly the text that was sent, and hides the other part; a late answer to an earlier click does not replace it, and a failed request breaks nothing. Whatever the text holds is shown as text, never taken as markup, and after a syntax error the text area has the focus and the selection runs from the place of the error to the end of the text.',
 ['inputs','histories','schedules'],'all texts and all orders of clicks, answers and failures',
 'The page has no tests.',
 ['server/template','server/server.go'],[('escapeHtml, showResults, showError, parse','server/template')],['the document after each event','requests of the page'])
p('C29','Dumps and traversals show every part of a tree exactly once, in order',
 "The dump of an AST or a statement, as the server, the page and the command show it, names each node's type and its non-empty parts by field, in order, and every word, quote, predicate name and variable as it is, with balanced brackets; only the modifiers of words and the offsets are left out. Visiting a statement, or any part of one, calls the function once for each of its nodes, parents before children and children in order; stripping AST links removes the link of each of these nodes and changes nothing else.",
 ['inputs'],'all ASTs and statements and parts of them',
 'The tests use dumps only to show differences, and strip links only from whole statements.',
 ['ast/ast.go','logic/logic.go','logic/visit.go'],[('PrettyPrint methods','ast/ast.go'),('Visit, NillOutAST','logic/visit.go')],['pretty.String of a tree','logic.Node.Visit','logic.NillOutAST'])
open('properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n,'sentences')

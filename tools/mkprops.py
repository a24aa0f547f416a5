#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
PQ="parser/parser_query.go"; PC="parser/parser_column.go"; PT="parser/parser_table.go"; PA="parser/parser_alter.go"
PV="parser/parser_view.go"; PD="parser/parser_drop.go"; PS="parser/parse_system.go"; PM="parser/parser_common.go"
LX="parser/lexer.go"; KW="parser/keyword.go"; FM="parser/format.go"; AS="parser/ast.go"; WK="parser/walk.go"; AV="parser/ast_visitor.go"

p("P01","Every input yields a result or an error: never a panic or a hang",
 "Parsing any byte string returns either a list of statements or an error; it never panics and always terminates. Every statement that is returned can be formatted (compact and beautified), traversed and asked for its start and end without panicking.",
 ["inputs"],"all byte strings: valid SQL, every prefix of valid SQL, token deletions/insertions/replacements, arbitrary character sequences",
 "The tests parse a corpus of complete statements and about 60 invalid ones; whether the parser looks at a missing token at end of input depends on where the input stops, and every grammar position is such a place.",
 [PM,PQ,PC,PT,PA,PV,PD,PS,LX],[("end-of-input checks before looking at the current token",PM),("optional-clause parsing",PT)],["ParseStmts","Format","Walk","Accept","Pos","End"])
p("P02","Parsing work grows slowly with the size and nesting of the input",
 "The work (memory allocated, time) needed to parse an input, or to format and traverse what it parsed to, grows at most polynomially and close to linearly with its length, for any nesting or repetition of constructs; no construct makes the parser try the same text again and again so that doubling the nesting squares the cost.",
 ["inputs"],"every construct of the language repeated or nested inside itself or another construct, at growing depth, whether the input is accepted or rejected",
 "Benchmarks run two fixed files; backtracking cost only shows with nesting depth, which the corpus keeps small.",
 [PC,PQ,PM],[("speculative INTERVAL parsing is remembered",PC),("bounded look-ahead on keyword/identifier ambiguity",PM)],["ParseStmts allocation counts at growing depth"])
p("P03","Nothing in the input is silently ignored",
 "When parsing succeeds, every token of the input is accounted for: it is represented in the returned statements (and comes back when they are formatted) or is one of the documented redundant spellings. Trailing text, unterminated quotes or comments, unbalanced brackets and incomplete clauses are errors, never dropped.",
 ["inputs"],"all inputs the parser accepts, in particular inputs one token away from a valid statement and inputs that are cut off or continued with garbage",
 "The golden tests compare valid statements with stored output; they cannot notice that an input which should be rejected is accepted with part of it missing.",
 [PM,PT,PA,LX],[("statements must end at end of input or ';'",PT),("each clause keeps what it consumed in the syntax tree",AS)],["ParseStmts","Format"])
p("P04","Tokens are recognised by longest match and their text is kept exactly",
 "Input is split into tokens by the lexical rules (longest operator wins, comments and whitespace separate, quotes delimit, numbers of every base and exponent form are one token), and the text of each identifier, number and string, its quoting style and number base appear in the tree exactly as written. Malformed lexical elements (bad numbers, unterminated quotes, unknown characters) are errors.",
 ["inputs"],"all sequences of characters, in every neighbourhood of characters",
 "Lexer tests list about a hundred literals in isolation; token boundaries depend on every pair or triple of neighbouring characters and on the preceding token.",
 [LX,KW],[("character dispatch, maximal munch",LX),("sign is part of a number only where no operand precedes",LX)],["literals and identifiers of the tree","ParseStmts error"])
p("P05","Operators group by the documented precedence and associativity",
 "An expression parses to the tree dictated by the operator table: '::', '.', '[]' bind tightest, then unary, * / %, + -, ||, IN, BETWEEN/LIKE, comparison, IS, NOT, AND, OR, ?:, ->; binary operators group to the left, -> and ?: to the right, and parentheses override. Ill-formed operator sequences are rejected.",
 ["inputs"],"all sequences of operands, operators, prefixes and brackets",
 "Precedence tests cover listed pairs; the grouping must be right for every combination and nesting of operators.",
 [PC,"parser/type.go"],[("precedence climbing",PC)],["expression part of the tree"])
p("P06","Formatting a parsed statement and parsing it again gives the same tree",
 "For every statement the parser accepts, its compact formatted text is accepted and parses to exactly one statement with the same tree up to source positions; formatting never drops, invents, reorders meaningfully or re-quotes a clause, name, literal or operator.",
 ["inputs"],"all accepted statements: every clause combination, quoting style and nesting",
 "Tests check that formatting is a text fixpoint on corpus files; a clause dropped by the formatter is also a fixpoint, and clause combinations are sampled.",
 [FM,PM],[("one formatter method per node",FM)],["Format","ParseStmts"])
p("P07","Beautified output differs from compact output only in whitespace",
 "For every statement and every whitespace indentation unit, beautified text consists of the same tokens in the same order as compact text, byte for byte inside literals and quoted names, so it parses to the same tree; line breaks and indentation appear only between tokens and no line ends with an unfinished token.",
 ["inputs","configurations"],"all accepted statements x output modes x indentation strings, including nesting of any depth and literals containing line breaks",
 "Golden files fix the layout of corpus statements with one indentation; literals with line breaks and nested clause combinations are not in them.",
 [FM],[("line-start tracking writer",FM)],["beautifying formatter"])
p("P08","Formatting is canonical and reformatting is stable",
 "The formatted text is the canonical spelling of the statement: keywords in upper case, optional noise words and spacing normalised in one fixed way, and nothing else changed. Formatting the result again, in either mode, gives byte-identical text, and two spellings of the same statement give identical text.",
 ["inputs"],"all accepted statements and all their spelling variants",
 "Golden files pin individual statements, not that all variants of a statement converge or that every clause combination is stable.",
 [FM],[("one formatter method per node",FM)],["Format","beautifying formatter"])
p("P09","Source positions of every node delimit its text",
 "Every node reports a start and an end with 0 <= start <= end <= length of the input, a parent covers its children and siblings keep source order; identifiers, numbers and strings cover exactly their text (without quotes), and the start of a node is the first byte of its first token.",
 ["inputs"],"all accepted inputs, with any spacing, comments and quoting between and inside clauses",
 "Position tests assert about a dozen hand-picked nodes; positions depend on which optional parts and how much whitespace follow each node.",
 [AS,PC,PQ,PT],[("start/end recorded while parsing",PT),("Pos/End derived from children",AS)],["Pos","End"])
p("P10","Every rejection is a structured error that points at the offending place",
 "Every parse failure can be unwrapped to one structured error whose byte offset lies within the input, whose line and column are those of this offset, whose reported offending token is the token at that place, and whose message shows that line with a caret of the token's width under it. What it says was expected is never what was found.",
 ["inputs"],"all rejected inputs, with the error at any line, column, tab, multi-byte character or at end of input",
 "Three error tests check one error each; offsets, lines and carets must agree for every input and failure place.",
 ["parser/error.go","parser/source.go",PM],[("offset to line/column",  "parser/source.go"),("error wrapping","parser/error.go")],["error value","Error()"])
p("P11","Walking a tree visits every node exactly once, parents first",
 "A full walk of any parsed statement calls back for every node reachable through the tree's exported fields exactly once, each after its parent and before its siblings' later subtrees, and never passes nil. ",
 ["inputs"],"all accepted statements, every node kind in every optional slot",
 "Static drift tests compare field names in two functions; they cannot see a field both forgot, a wrong guard, a nil child or a double visit.",
 [WK],[("type switch over node kinds",WK)],["Walk"])
p("P12","The visitor protocol reaches every node and reports errors faithfully",
 "Accepting a visitor on any parsed statement enters every node exactly once, visits it after its children and leaves it, with enters and leaves properly nested; each node is dispatched to the callback of its own kind. An error from a callback stops the traversal at once and is returned unchanged, still leaving every node that was entered.",
 ["inputs","fault_sequences"],"all accepted statements x every node at which a callback may fail",
 "Visitor tests run a visitor that never fails over the corpus and compare no event order.",
 [AS,AV],[("Accept methods",AS),("default visitor",AV)],["Accept"])
p("P13","Search helpers agree with a full walk and stop when told to",
 "Finding the first match, collecting all matches and walking with early termination agree with the full walk: the same order, the first match is the earliest node of the walk that satisfies the predicate, all matches are all of them in order, and after a callback declines to go on nothing more is visited and the caller is told. The transforming walk visits each node once.",
 ["inputs","fault_sequences"],"all accepted statements x every stopping node x predicates",
 "Helper tests use one query and one stopping point.",
 [WK],[("boolean result propagated through recursion",WK)],["Walk","WalkWithBreak","Find","FindAll","Transform"])
p("P14","Results depend on the input only: no shared state, no mutation, safe in parallel",
 "Parsing the same text always gives the same result, whatever was parsed, formatted or failed before and whatever other goroutines are doing with parsers and trees of their own; formatting, walking, searching and visiting leave the tree unchanged and can run on one tree from several goroutines at once without a data race.",
 ["histories","schedules"],"all histories and interleavings of parse/format/walk/visit calls over independent parsers and shared read-only trees",
 "Tests parse each file once in one goroutine and never share trees across goroutines.",
 [KW,PM,FM],[("parser and formatter keep state per instance; package tables are read-only",PM)],["all exported functions"])
p("P15","Keyword case, whitespace, comments and stray semicolons do not matter",
 "Changing the letter case of keywords, replacing the whitespace between tokens by any other whitespace or comments (in all comment forms), or adding redundant statement separators changes neither acceptance nor the tree (apart from positions, names kept verbatim and recorded keyword spelling). The formatted text is the same up to the letter case of keywords that are recorded in their source spelling.",
 ["inputs"],"all accepted statements x all renderings of their token sequence",
 "The corpus is almost entirely in upper case with single spaces; case and comment handling is repeated at hundreds of places in the parser.",
 [LX,KW,PM],[("case-insensitive keyword comparison",PM),("comment and whitespace skipping",LX)],["ParseStmts","Format"])
p("P16","Words that are not reserved can be used as names everywhere",
 "A keyword outside the reserved list is accepted as a column, alias, table, database, function or other name wherever a plain identifier is, giving the same tree with that name, unless its neighbours let it be read as the keyword (TOP 5, IF EXISTS, a bare table alias); so adding a clause elsewhere does not change how a name is read. A reserved word is a name after AS, after a dot and in braces, and as an operand in front of an operator, a comma, a closing bracket, a clause or the end; elsewhere it is rejected. A quoted word is always the name and nothing else. Type names and authentication types are not names.",
 ["inputs"],"every keyword x every name position x the tokens that may follow it",
 "Keyword tests cover some keywords in some positions; the ambiguity depends on the pair (position, following token) for about 250 keywords.",
 [KW,PM,PC],[("reserved word list",KW),("look-ahead to tell an identifier from a clause",PM)],["ParseStmts"])
p("P17","Statements in a batch are parsed independently and in order",
 "Parsing several statements separated by ';' gives exactly the trees of parsing each alone, in order, shifted by their offset; empty statements are skipped, a final separator is optional, two statements without a separator are an error, and an error in any statement makes the whole call fail with the position in the whole input.",
 ["inputs"],"all sequences of accepted and rejected statements",
 "Multi-statement corpus files hold a few statements of one kind; carry-over from one statement to the next depends on the pair.",
 [PT,PM],[("statement loop",PT)],["ParseStmts"])
p("P18","The command line tool reports exactly what the library computes",
 "For any input given as argument or file, the tool prints the JSON of the tree, the compact or the beautified text of each statement exactly as the library produces them and exits 0; on a parse or file error it prints nothing on stdout, the error on stderr and exits non-zero.",
 ["inputs","configurations"],"all inputs x flag combinations x argument/file input",
 "The tool has no tests at all.",
 ["main.go"],[("flag handling and output","main.go")],["process stdout, stderr and exit status"])
p("P19","Each SELECT clause lands in its own place in the tree",
 "For every SELECT query, each clause that is written (WITH, DISTINCT [ON], TOP, items with aliases and modifiers, FROM, WINDOW, PREWHERE, WHERE, GROUP BY and its modifiers, HAVING, ORDER BY with direction and fill, LIMIT [BY], SETTINGS, FORMAT, set operations) appears in the tree in its own place with exactly its operands in order, and clauses not written are absent. Set operations chain in source order.",
 ["inputs"],"all combinations and orders of the clauses the grammar allows, nested in subqueries, common table expressions and windows",
 "Golden trees cover about 150 selected queries; which clause owns an operand must be right for every combination of neighbouring clauses.",
 [PQ,PC],[("clause parsers called in order",PQ)],["tree of SELECT"])
p("P20","FROM and JOIN structure is faithful to the source",
 "Tables, aliases, table functions, subqueries, FINAL and SAMPLE, and every join with its modifiers, locality and ON/USING condition appear in the tree in source order, each attached to the table or join it was written for.",
 ["inputs"],"all sequences of table expressions, join kinds, locality, aliases, constraints and array joins",
 "About 30 corpus queries contain joins, mostly with one or two tables.",
 [PQ],[("join chain construction",PQ)],["FROM part of the tree"])
p("P21","CREATE, DROP and other definitions are represented completely",
 "For every CREATE / ATTACH / DROP / TRUNCATE / RENAME statement (tables, views, materialized and live views, dictionaries, functions, databases, named collections, roles, users), each option and clause that is written appears in the tree in its own place with its own operands, and options not written are absent.",
 ["inputs"],"all combinations of the optional clauses of each definition statement, in the orders the grammar allows",
 "Each statement kind has a handful of golden files; combinations of optional clauses are not enumerated.",
 [PT,PV,PD],[("one parser per definition statement",PT)],["tree of definition statements"])
p("P22","ALTER actions are represented completely and in order",
 "For every ALTER TABLE / ALTER ROLE statement, each action appears in the tree in source order as the action that was written, with its own targets, IF [NOT] EXISTS, AFTER, partition, settings and conditions and nothing more.",
 ["inputs"],"all sequences of ALTER actions with all option combinations",
 "One golden file per action; combinations and multi-action statements are rare.",
 [PA],[("one parser per action",PA)],["tree of ALTER"])
p("P23","Data-change and administrative statements are represented completely",
 "For every INSERT, DELETE, UPDATE, SET, USE, OPTIMIZE, CHECK, EXPLAIN, SHOW, DESCRIBE, SYSTEM, GRANT and similar statement, each target, option, privilege, value row and clause appears in the tree in its own place and in source order.",
 ["inputs"],"all option combinations of each statement",
 "A few golden files per statement kind; several alternatives (SYSTEM, GRANT) have none.",
 [PT,PS],[("one parser per statement",PS)],["tree of these statements"])
p("P24","Column types and column definitions are represented completely",
 "Every column type (simple, parameterised, nested, enum, JSON with options, tuple, array, map) and every column definition property (NULL, DEFAULT, MATERIALIZED, ALIAS, CODEC, TTL, COMMENT) is kept in the tree with all parameters in order, in table definitions, casts, query parameters and ALTER alike.",
 ["inputs"],"all nestings of types and all combinations of column properties",
 "About 20 corpus files exercise types, each alone.",
 [PT,PC],[("recursive type parser",PC)],["type and column part of the tree"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        x["statement"]=x["statement"].strip()
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))

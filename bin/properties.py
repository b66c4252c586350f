#!/usr/bin/env python3
"""Writes properties.jsonl (kept here so that the text is readable and reviewable)."""
import json, os

J = 'crates/joker/src/'
out = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    o = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=' '.join(text.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        o['anchors']['observe_at'] = observe
    out.append(o)


TESTS_LEX = """The only stable test compares the values of the first two tokens of a fixed list of short
inputs; it never looks at locations, flags, errors or later tokens, and """

prop('L01', 'Tokenizing any text ends in tokens or an error, never a panic or a hang',
     """For every text and every choice of how each slash is to be read, asking the tokenizer for tokens until it
     reports the end of the input or an error takes finitely many steps and never panics, overflows or loops.
     Once the end of the input has been reported, it is reported again, at the same place, however often more
     tokens are asked for.""",
     ['inputs', 'histories'], 'every text over the full Unicode range, every sequence of slash decisions, including texts that end inside a lexeme',
     TESTS_LEX + 'a text that stops in the middle of a lexeme or contains unusual characters is never tried.',
     [J + 'lexer.rs', J + 'reader.rs'],
     [('main token loop', J + 'lexer.rs: read_next_token'), ('end of input handling in every lexeme reader', J + 'lexer.rs: read_*'),
      ('one-character and two-character lookahead', J + 'reader.rs')], ['joker::lexer::Lexer::read_token'])

prop('L02', 'Token spans are exact, ordered and disjoint; gaps hold only trivia',
     """Each token's span covers exactly the characters of its lexeme: tokens come in source order, do not overlap,
     and every character between two consecutive tokens, before the first and after the last belongs to white
     space, a line terminator or a comment. The end-of-input token is empty and sits at the end of the text.""",
     ['inputs'], 'every text the tokenizer accepts, in every mix of lexemes and trivia', TESTS_LEX + 'spans are not compared at all.',
     [J + 'lexer.rs', J + 'track.rs', J + 'reader.rs'],
     [('span construction', J + 'lexer.rs: SpanTracker'), ('position tracking', J + 'reader.rs: next')], ['Token.location'])

prop('L03', 'Offsets, lines and columns agree with the source text',
     """Every reported position counts the characters from the start of the text (offset), the line terminators
     before it (line) and the characters since the last of them (column), where LF, CR, U+2028 and U+2029 each end a
     line and CR LF counts as one line end. This holds for token starts, token ends and the tokenizer's current
     position, whatever lexeme or comment the line terminators are in.""",
     ['inputs'], 'every text and every position in it, including line terminators inside comments and string continuations',
     TESTS_LEX + 'positions are not compared at all.',
     [J + 'reader.rs', J + 'lexer.rs', J + 'track.rs'],
     [('line and column counting', J + 'reader.rs: next'), ('start and end positions', J + 'track.rs')], ['Token.location', 'Lexer::posn'])

prop('L04', 'White space and comments are skipped; a token knows if a newline precedes',
     """White space, line terminators, line comments, block comments and the HTML-like comments (`<!--` anywhere, and
     `-->` when only trivia precedes it on its line) separate tokens and contribute nothing else. A token is flagged as
     following a newline exactly when a line terminator, possibly inside a block comment, lies between it and the
     previous token (or the start of the text). An unclosed block comment is an error.""",
     ['inputs'], 'every sequence of trivia between any two tokens', TESTS_LEX + 'the newline flag, on which semicolon insertion depends, is never compared.',
     [J + 'lexer.rs', J + 'char.rs'],
     [('skipping trivia', J + 'lexer.rs: skip_whitespace, skip_line_comment, skip_block_comment'), ('newline flag', J + 'lexer.rs: read_next_token')], ['Token.newline'])

prop('L05', 'Punctuators are read by longest match',
     """At a punctuator the tokenizer returns the longest punctuator of the language that the following characters
     spell, ending exactly there, so that adjacent operators split the same way in every context. A dot followed by
     a digit starts a number and exactly three dots make an ellipsis; a character that can start no lexeme is
     refused as illegal.""",
     ['inputs'], 'every sequence of punctuator characters and what follows it', TESTS_LEX + 'runs of operators without spaces are not tried.',
     [J + 'lexer.rs', J + 'token.rs'], [('operator state machine', J + 'lexer.rs: read_next_token, read_punc2, read_punc2_3')], ['Token.value'])

prop('L06', 'A slash is a regular expression or a division, as the caller asks',
     """When the caller says an operator is expected, a slash that opens no comment is the division or divide-assign
     operator; otherwise it opens a regular expression that ends at the first slash outside a bracketed class and not
     escaped, with the source pattern kept exactly and the identifier
     characters that follow as its flags. A line terminator or the
     end of the input before that slash is an error.""",
     ['inputs', 'histories'], 'every text with slashes, every decision at each slash', TESTS_LEX + 'regular expressions with classes, escapes or flags in combination are not enumerated.',
     [J + 'lexer.rs'], [('slash dispatch', J + 'lexer.rs: read_next_token'), ('pattern and flags', J + 'lexer.rs: read_regexp, read_regexp_class')],
     ['Lexer::read_token', 'TokenData::RegExp'])

prop('L07', 'Numeric literals: extent, source form and exact value',
     """Decimal, hexadecimal, octal, binary and legacy-octal literals extend as far as the grammar allows, keep their
     radix, digits, fraction and exponent as written, and denote the double nearest to their exact mathematical value.
     A literal directly followed by an identifier character or a digit it cannot contain, or lacking the digits its
     prefix or exponent promises, is an error.""",
     ['inputs'], 'every digit string of every radix, of any length, and every character that may follow', TESTS_LEX + 'long literals, rounding ties and malformed tails are not covered.',
     [J + 'lexer.rs', J + 'token.rs'], [('literal readers', J + 'lexer.rs: read_number, read_radix_int, read_decimal_digits, read_exp_part'), ('numeric value', J + 'token.rs: NumberSource value')],
     ['TokenData::Number', 'NumberSource::value'])

prop('L08', 'String literals: extent and decoded value',
     """A string literal ends at the first matching, unescaped quote and its value is its characters with the escapes
     decoded: single-character escapes, line continuations (contributing nothing, with CR LF as one), octal, two-digit hexadecimal, and the two
     Unicode forms for every Unicode scalar value; any other escaped character stands for itself. A line terminator or the end of the
     input before the closing quote, or an incomplete hexadecimal or Unicode escape, is an error.""",
     ['inputs'], 'every string body over every escape form, quote and line terminator', TESTS_LEX + 'combinations of escapes, such as an octal escape followed by more digits, are not enumerated.',
     [J + 'lexer.rs'], [('string reader', J + 'lexer.rs: read_string, read_string_escape, read_unicode_escape_seq')], ['TokenData::String'])

prop('L09', 'Words: extent, reserved and contextual words, escapes',
     """A word extends over the longest run of identifier characters and Unicode escapes of such characters; it is
     reported as the reserved word it spells if it is one, as the contextual word it spells if it is one, and as an identifier with
     exactly its decoded characters otherwise. A word spelt with an escape is never a keyword: a reserved word so
     spelt, or an escape of a character that may not stand there, is an error.""",
     ['inputs'], 'every word, every reserved or contextual word with any letter changed, added, dropped or escaped', TESTS_LEX + 'the word tables and escape rules are only touched by a few samples.',
     [J + 'lexer.rs', J + 'word.rs', J + 'char.rs'], [('word reader', J + 'lexer.rs: read_word, read_word_escape'), ('word tables', J + 'word.rs')],
     ['TokenData::Reserved', 'TokenData::Identifier'])

prop('L10', 'Looking ahead and pushing tokens back never changes what is read',
     """However a client mixes peeking, reading, skipping, pushing back and re-reading tokens, the tokens it gets are
     those of a single left-to-right reading of the text: no token is lost, repeated, reordered or altered, and the
     mode in which a slash was first read stays with the token. The reported position always is the end of the last
     token that was taken from the text, whether it was handed out, shown or dropped.""",
     ['histories', 'inputs'], 'every legal sequence of calls with up to two tokens pushed back, over every text',
     TESTS_LEX + 'only plain reading is exercised; the pushback buffer is not.',
     [J + 'lexer.rs'], [('two-slot lookahead buffer', J + 'lexer.rs: peek_token, read_token, unread_token, reread_token, repeek_token, skip_token, posn')],
     ['joker::lexer::Lexer'])

prop('L11', 'Every code point has its lexical class in every context',
     """For each of the 1,114,112 code points, whether it is white space, a line terminator, an identifier start, an
     identifier part or none of these is the same in every lexical context (between tokens, in words, after numbers,
     in strings, in comments, in regular expressions, written literally or as an escape) and follows the ECMAScript definition with the Unicode
     tables the project uses.""",
     ['inputs'], 'every Unicode code point in each of eleven contexts', TESTS_LEX + 'almost all samples are ASCII.',
     [J + 'char.rs', J + 'lexer.rs'], [('character classes', J + 'char.rs: ESCharExt'), ('uses in the readers', J + 'lexer.rs')], ['joker::lexer::Lexer'])

prop('L12', 'A malformed lexeme is refused, with the right kind of error',
     """A text containing a lexeme the grammar does not allow (unterminated string, comment or regular expression, incomplete escape, missing
     digits, an identifier or digit glued to a number, an illegal character) makes the tokenizer return an error of the
     kind that names the defect, carrying the offending character, after all tokens before it were returned.""",
     ['inputs'], 'every malformed lexeme in every position', TESTS_LEX + 'no rejected input is part of the stable test.',
     [J + 'lexer.rs', J + 'error.rs'], [('error returns of the readers', J + 'lexer.rs'), ('error kinds', J + 'error.rs')], ['joker::error::Error'])

prop('L13', 'A name is its spelling, contextual word or not',
     """Making a name of any text and asking for its text gives that text back, whichever way it is asked for; the name is
     a contextual word exactly when the text is one, and that word's own name is the text. Two names are equal exactly when their
     texts are, and the tokenizer gives a plainly written identifier the very name its text makes. The same holds for
     reserved words and their names.""",
     ['inputs'], 'every text; every contextual and reserved word and its neighbours', TESTS_LEX + 'the two conversion tables for words (from text, to text) are never compared with each other or with the tokenizer.',
     [J + 'word.rs'], [('conversions', J + 'word.rs: From<String>, into_string, as_ref, name'), ('tokenizer table', J + 'word.rs: Map')], ['joker::word::{Name,Atom,Reserved}'])
prop('L14', 'Literals and tokens compare by what they denote',
     """Two number literals are equal exactly when their values are, two string literals when their characters are, and two regular
     expressions when their patterns are and their flags are the same letters in any order; how a literal was written never
     matters. A number source denotes the double nearest to what its digits, radix, fraction and exponent say, whether the
     tokenizer or a client built it, and its literal keeps the source and that value. Tokens are equal when their data, their
     location and their newline flag are.""",
     ['inputs'], 'every pair of literals, every number source', TESTS_LEX + 'equality of literals written differently is never tried, and number sources are only built by the tokenizer.',
     [J + 'token.rs'], [('equality', J + 'token.rs: PartialEq'), ('values', J + 'token.rs: NumberSource::value, into_token_data')], ['joker::token'])
prop('L15', 'Joining, showing and forgetting source spans',
     """The span of two parts goes from the start of the first to the end of the second, and is unknown when either is. Setting
     the location of a trackable thing is seen by reading it. Positions are shown as line and column counted from one.
     Forgetting locations removes every location in a structure, through any nesting of boxes, options and sequences, and
     changes nothing else in it.""",
     ['inputs'], 'every pair of spans and every nesting of containers', TESTS_LEX + 'spans are not used at all.',
     [J + 'track.rs', J + 'token.rs'], [('joining', J + 'track.rs: span'), ('forgetting', J + 'track.rs: Untrack'), ('showing', J + 'track.rs: Debug')], ['joker::track'])
prop('L16', 'The message of a tokenizer error names the defect and what was found',
     """Every tokenizer error describes its own kind of defect, and the message of an illegal character, an invalid digit, an illegal
     code unit or an escaped reserved word goes on to show the offending character, number or word.""",
     ['inputs'], 'every error kind with every offending character', TESTS_LEX + 'no message is ever looked at.',
     [J + 'error.rs'], [('messages', J + 'error.rs: Display, description')], ['joker::error::Error'])

U = 'crates/unjson/src/'
WHY_U = 'The JSON helper crate has no tests at all; '
prop('U01', 'Typed JSON access returns the value exactly or names what is wrong',
     """Asking a JSON object or value for a given type returns the stored value unchanged if it is of that type (numbers converted
     only when the conversion is the one asked for and representable), and otherwise reports a type mismatch naming the expected and the actual
     type. A field that is not there is reported as missing, with its name.""",
     ['inputs'], 'every value of every JSON type at every accessor, including boundary integers and floats', WHY_U + 'the table of accessor times value type is never enumerated.',
     [U + 'unjson.rs', U + 'ty.rs', U + 'error.rs'], [('conversions', U + 'unjson.rs: Unjson'), ('type names', U + 'ty.rs')], ['unjson::{Unjson,GetField,ExtractField}'])
prop('U02', 'Extracting a field removes exactly that field; reading changes nothing',
     """Extracting a field removes it, and only it, from the object and hands its value over, so that extracting it again reports it
     missing; reading a field, successfully or not, leaves the object as it was. Fields not named by a call keep their
     values whatever the outcome of the call.""",
     ['histories', 'inputs'], 'every sequence of reads and extractions over objects with several fields', WHY_U + 'sequences of calls are never exercised.',
     [U + 'unjson.rs'], [('extraction', U + 'unjson.rs: ExtractField'), ('reading', U + 'unjson.rs: GetField')], ['unjson::{GetField,ExtractField}'])
prop('U03', 'Optional access is required access plus null',
     """The optional form of every accessor answers "absent" exactly for null and otherwise answers as the required form
     does; reading, extracting and converting agree with one another on every value.""",
     ['inputs', 'histories'], 'every pair of optional and required accessors over every value', WHY_U + 'nothing compares the forms.',
     [U + 'unjson.rs'], [('optional accessors', U + 'unjson.rs: *_opt')], ['unjson::{Unjson,GetField,ExtractField}'])

prop('U04', 'A JSON access error says what was expected and what was found',
     """The message of a type mismatch names the expected and the actual type, in that order; of a missing field, its name; of a
     wrong length or an index out of bounds, both numbers, each in its place; of a text that may not stand there, what may and the text. The
     error constructors keep their arguments in those places, and every JSON value reports its own type under its own name.""",
     ['inputs'], 'every error kind with every argument', WHY_U + 'no message is ever looked at.',
     [U + 'error.rs', U + 'ty.rs'], [('messages and constructors', U + 'error.rs'), ('type names', U + 'ty.rs: Display')], ['unjson::error', 'unjson::ty'])

S = 'src/'
WHY_P = """The parser's own test runner reads fixtures that are not in the repository and is not part of the stable tests, so no
parser behaviour is tested; """
PF = [S + 'parser.rs', S + 'tokens.rs', S + 'expr.rs', S + 'stack.rs', S + 'state.rs', S + 'atom.rs', S + 'track.rs', S + 'context.rs']

prop('P01', 'Parsing any text ends in a program or an error, never a panic',
     """For every text, every parsing entry point returns either a syntax tree or an error in finitely many steps; it
     never panics, whatever token the text stops at or goes wrong at. Constructs outside the supported language are
     reported as errors.""",
     ['inputs', 'programs'], 'every token sequence, cut or corrupted at any point', WHY_P + 'malformed programs are unbounded in number.',
     PF, [('recursive descent', S + 'parser.rs'), ('error values', S + 'error.rs')], ['esprit::{script,strict,module,program}'])
prop('P02', 'Every statement of the language parses to its own structure',
     """Every program the grammar derives is accepted and its tree records, in source order, exactly the statements, clauses and
     operands the grammar assigns to each: a dangling else belongs to the nearest if, a switch keeps its cases in order with at most one default,
     a try keeps its handler and finalizer, and for, while and do loops keep each of their parts.""",
     ['programs'], 'every derivation of the statement grammar', WHY_P + 'the interaction of nested statements is unbounded.',
     PF + ['crates/easter/src/stmt.rs'], [('statement dispatch', S + 'parser.rs: statement and the per-statement parsers')], ['esprit::script'])
prop('P03', 'Operators bind by precedence and associativity',
     """In every expression, each operator applies to exactly the operands that the precedence and associativity of the language give it: the tree
     of an expression is the one its fully parenthesised form has. Member access, calls and `new` with and without arguments, prefix, postfix,
     conditional, assignment and comma expressions group by the same rules.""",
     ['programs'], 'every sequence of operators and operand forms', WHY_P + 'pairs and triples of operators number in the thousands.',
     [S + 'parser.rs', S + 'stack.rs', S + 'expr.rs', S + 'state.rs', 'crates/easter/src/punc.rs'],
     [('operator stack', S + 'stack.rs'), ('precedence table', 'crates/easter/src/punc.rs'), ('unary, member and call chains', S + 'parser.rs')], ['esprit::script'])
prop('P04', 'Semicolons are inserted exactly where the language inserts them',
     """A missing semicolon is supplied only before a token on a new line that cannot continue the statement, before a closing brace, at the end of the input, or
     after do-while; never otherwise, and never inside a for head. A newline after return, break, continue or before a postfix
     operator ends the expression there; a newline after throw is an error; a token that can continue the expression does so across newlines.""",
     ['programs', 'inputs'], 'every pair of adjacent tokens of every statement, with and without a line terminator between them', WHY_P + 'newline placement multiplies every program.',
     PF, [('semicolon insertion', S + 'parser.rs / tokens.rs: end_with_auto_semi, has_arg_same_line'), ('newline flag', 'crates/joker/src/lexer.rs')], ['esprit::script'])
prop('P05', 'The parser reads each slash as division or regular expression by position',
     """A slash where the grammar allows an operand starts a regular expression and a slash where it allows an operator is a
     division, in every statement and expression position, independent of layout and of lookahead made on the way.""",
     ['programs'], 'every syntactic position at which a slash can follow', WHY_P + 'each position chooses the tokenizer mode separately.',
     [S + 'parser.rs', S + 'tokens.rs', S + 'context.rs', 'crates/joker/src/lexer.rs'], [('operator/operand mode', S + 'tokens.rs: peek, peek_op, read_op ...')], ['esprit::script'])
prop('P06', 'Jumps and labels are legal exactly where the language allows them',
     """A break needs an enclosing loop or switch, a continue an enclosing loop, a return an enclosing function, and a labelled jump an enclosing
     statement with that label (a loop, for continue), none of them across a function boundary. A label may not be
     repeated inside its own statement. Violations are rejected and everything else is accepted, at any nesting depth.""",
     ['programs'], 'every nesting of loops, switches, labels and functions around every jump', WHY_P + 'it depends on the whole nesting path.',
     [S + 'parser.rs', S + 'context.rs'], [('label set and function context', S + 'context.rs'), ('checks', S + 'parser.rs: break_statement, continue_statement, return_statement, id_statement')], ['esprit::{script,strict}'])
prop('P07', 'Strict mode starts, spreads and ends where the language says',
     """Code is strict exactly when the entry point, a directive prologue of its script or function, or an enclosing strict function makes it
     so; a prologue is the leading run of string-literal statements, each kept with its source text. In strict code `with` statements, strict reserved words as identifiers and
     eval or arguments as binding names are rejected; elsewhere they are accepted.""",
     ['programs'], 'every nesting of functions with and without directives around every restricted construct, at every entry point', WHY_P + 'strictness is inherited and entered mid-function.',
     [S + 'parser.rs', S + 'context.rs', S + 'error.rs'], [('prologue', S + 'parser.rs: body, directive handling'), ('mode', S + 'context.rs')], ['esprit::{script,strict,module,program}'])
prop('P08', 'The parsing entry points agree with one another',
     """Strict parsing accepts a subset of what sloppy parsing accepts and builds the same tree; the entry point that works out the kind of program accepts
     exactly what one of the others accepts and returns their tree. Parsing is deterministic.""",
     ['programs'], 'every program at all entry points', WHY_P + 'the entry points are never compared.',
     [S + 'lib.rs', S + 'parser.rs'], [('script, strict, module and program', S + 'parser.rs: script, module, program')], ['esprit::{script,strict,module,program}'])
prop('P09', 'Object literals keep their properties, names, accessors and functions',
     """An object literal keeps its properties in order, each with its key as written (identifier, any reserved word, string or number) and its form:
     value, getter, setter, method or shorthand. `get` and `set` are accessors only when a property name follows and are ordinary names otherwise; array literals keep
     their holes.""",
     ['programs'], 'every property form, every kind of key and every neighbour', WHY_P + 'the forms are told apart only by lookahead.',
     [S + 'parser.rs', 'crates/easter/src/obj.rs'], [('property parsing', S + 'parser.rs: object_property, more_prop_init, property_key')], ['esprit::script'])
prop('P10', 'Only assignable expressions are assigned to',
     """The target of an assignment, update or for-in/of head is accepted exactly if it is an identifier, a member expression or, for plain assignment,
     an object or array literal all of whose parts are themselves assignable, which then becomes the corresponding pattern.
     Anything else is rejected.""",
     ['programs'], 'every expression form as a target of every assigning operator', WHY_P + 'the conversion from expression to pattern is recursive.',
     [S + 'parser.rs', 'crates/easter/src/cover.rs'], [('cover grammar conversion', 'crates/easter/src/cover.rs'), ('checks', S + 'parser.rs: assignment and update expressions')], ['esprit::script'])
prop('P11', 'The heads of for statements are told apart correctly',
     """A for head is read as a C-style, for-in or for-of head exactly as its tokens say: `in` is an operator only inside brackets of some kind or after
     the first semicolon, every part may be absent only where the grammar says so, and declarations in for-in and for-of heads bind exactly one target.""",
     ['programs'], 'every combination of head parts and declarations', WHY_P + 'the cases are decided late, after a shared prefix.',
     [S + 'parser.rs', S + 'context.rs'], [('for head', S + 'parser.rs: for_statement and its continuations'), ('in operator switch', S + 'context.rs')], ['esprit::script'])
prop('P12', 'Layout does not change the tree',
     """Replacing the white space and comments between the tokens of a program by any others leaves the tree, apart from locations, and the verdict unchanged, provided
     line terminators appear between the same tokens.""",
     ['programs', 'inputs'], 'every program under every choice of trivia', WHY_P + 'the choices of trivia are unbounded.',
     [S + 'parser.rs', 'crates/joker/src/lexer.rs'], [('token-driven parsing', S + 'tokens.rs')], ['esprit::script'])
prop('P13', 'Leaves of the tree carry the span of their token',
     """Every identifier, literal, `this` and operator recorded in the tree carries the location of the token it was made from, so that the
     text at that location is its own source text.""",
     ['programs', 'inputs'], 'every leaf of every program under every layout', WHY_P + 'no location in a tree is compared.',
     [S + 'parser.rs', S + 'track.rs', S + 'atom.rs', S + 'expr.rs'], [('span helpers', S + 'track.rs')], ['esprit::script'])
prop('P14', 'Erasing locations erases all of them and nothing else',
     """Erasing locations from a syntax tree leaves a tree with the same structure, names, literals and operators and with no location left anywhere in it; doing it twice
     changes nothing further. Two trees of programs that differ only in layout become equal.""",
     ['programs'], 'every kind of node in every position', WHY_P + 'erasure is derived per node type.',
     ['crates/derive/src/lib.rs', 'crates/joker/src/track.rs', 'crates/easter/src/'], [('derived erasure', 'crates/derive/src/lib.rs'), ('hand-written instances', 'crates/joker/src/track.rs, crates/easter/src')], ['joker::track::Untrack'])
prop('P15', 'A syntax error is reported at the first token that cannot continue',
     """If no program starts with the tokens read so far plus the next one, parsing fails at that token, and neither earlier nor later: an error that names a token names the first
     one that cannot continue the text (only a reserved word used as a shorthand property is named itself, not the token that shows it to be one), and nothing
     after that token influences the outcome.""",
     ['programs'], 'every viable prefix followed by every token that cannot continue it', WHY_P + 'no error is compared.',
     [S + 'parser.rs', S + 'tokens.rs', S + 'error.rs'], [('unexpected-token errors', S + 'tokens.rs: expect'), ('statement and expression dispatch', S + 'parser.rs')], ['esprit::error::Error'])
prop('P16', 'Derived location access and erasure reach the right places',
     """For any type that derives them, reading the location of a value gives the field named location, or the first field of a tuple form (or that field's own location when it is
     not one itself); setting it changes that place and no other; erasing locations reaches every field of every variant, through boxes, options, sequences and type parameters,
     and changes nothing that is not a location.""",
     ['inputs'], 'every value of a type with every shape of variant and field', WHY_P + 'the generated code is only used, never checked.',
     ['crates/derive/src/lib.rs', 'crates/joker/src/track.rs'], [('generated accessors', 'crates/derive/src/lib.rs: expand_tracking_data'), ('generated erasure', 'crates/derive/src/lib.rs: expand_untrack_data')],
     ['derive', 'joker::track'])
prop('P17', 'Functions, declarations and binding names',
     """Function declarations and expressions, variable declarations, parameters and catch clauses bind the names written, in order, with their initialisers; declarations stand only where the
     language allows them, and no reserved word is ever a binding name, while contextual words are wherever they are not restricted.""",
     ['programs'], 'every declaration form with every word as the bound name', WHY_P + 'words times positions are never enumerated.',
     PF + ['crates/easter/src/decl.rs', 'crates/easter/src/fun.rs', 'crates/easter/src/id.rs'], [('binding identifiers', S + 'parser.rs: binding_id, id'), ('declarations', S + 'parser.rs: declaration, var_declaration ...')], ['esprit::script'])

prop('P18', 'Two trees are equal exactly when they record the same program',
     """Two trees whose places have been erased are equal, either way round, exactly when they record the same program: the same constructs, names, operators and literal values in the same order (calling
     a constructor without arguments is the same with and without parentheses; how a string is quoted or a semicolon came about does not count). While places are kept, trees with different places differ.
     A copy of a tree equals it, and trees that record different programs are printed differently.""",
     ['programs'], 'every pair of programs that differ in little', WHY_P + 'comparing trees is what every test of a parser rests on, and is itself tested by none.',
     [S + 'parser.rs', 'crates/easter/src/expr.rs', 'crates/easter/src/stmt.rs', 'crates/easter/src/obj.rs', 'crates/easter/src/punc.rs', 'crates/easter/src/patt.rs', 'crates/easter/src/decl.rs', 'crates/easter/src/fun.rs', J + 'token.rs', J + 'word.rs'],
     [('equality and debug form of expressions', 'crates/easter/src/expr.rs: PartialEq, Debug'), ('equality of literals', J + 'token.rs'), ('the derived equality of everything else', 'crates/easter/src')], ['easter::expr::Expr', 'easter::stmt::Script', 'easter::stmt::Module'])

prop('P19', 'Turning one part of a tree into another keeps what it holds',
     """A statement is taken for a directive exactly when it is a string and nothing else, and the directive has that string, semicolon and place; anything else is given back unchanged. A name made into an expression,
     pattern or declarator, a declarator made of a pattern and an initialiser, and a statement made into an item of a module keep their parts and the places of these, and a declarator extends from its pattern to its
     initialiser. A pattern other than a name without initialiser is refused and given back.""",
     ['programs'], 'every statement, name, pattern and declarator of a program', WHY_P + 'the conversions are only used inside the parser and the ESTree reader, each for some of the cases.',
     ['crates/easter/src/stmt.rs', 'crates/easter/src/decl.rs', 'crates/easter/src/id.rs', 'crates/easter/src/patt.rs'],
     [('directives', 'crates/easter/src/stmt.rs: is_directive, to_directive, into_directive'), ('declarators', 'crates/easter/src/decl.rs: DtorExt'), ('names', 'crates/easter/src/id.rs: IdExt')],
     ['easter::stmt::Stmt', 'easter::stmt::StmtListItem', 'easter::decl::DtorExt', 'easter::id::IdExt'])

prop('P20', 'Every error says what it is and what caused it',
     """The description and the message of every syntax error name its defect, and those of two kinds differ; an error that passes on one of the tokenizer or of an assignment pattern says what that one says and gives it as
     its cause, and no other has one. The errors of the ESTree reader name the defect and the node, field or value at fault.""",
     ['inputs'], 'every kind of error', WHY_P + 'no test looks at the text of an error.',
     [S + 'error.rs', 'crates/easter/src/cover.rs', 'crates/estree/src/error.rs', 'crates/estree/src/tag.rs'],
     [('messages', S + 'error.rs: description, cause, Display'), ('messages of the reader', 'crates/estree/src/error.rs: Display')], ['esprit::error::Error', 'estree::error::Error'])

EF = 'crates/estree/src/'
prop('E01', 'ESTree import and the parser describe the same tree',
     """The ESTree JSON description of a program imports to the same tree that parsing its source gives, for every statement and expression form both support, keeping order, names, operators, literals and
     directives.""",
     ['programs'], 'every program of the common language', WHY_P + 'the ESTree reader is only used by that runner.',
     [EF + f for f in ['node.rs', 'expr.rs', 'stmt.rs', 'decl.rs', 'fun.rs', 'id.rs', 'lit.rs', 'obj.rs', 'patt.rs', 'prog.rs', 'tag.rs']], [('per-node conversions', EF + 'stmt.rs, expr.rs ...'), ('type tags', EF + 'tag.rs')], ['estree::IntoScript'])
prop('E02', 'Operator spellings and operators correspond one to one',
     """Every operator prints as its source spelling and that spelling, and no other text, reads back as the same operator, for binary, logical, unary, update and assignment operators alike.""",
     ['inputs'], 'every operator and every string', WHY_P + 'the spelling tables are never enumerated.',
     ['crates/easter/src/punc.rs'], [('spelling tables', 'crates/easter/src/punc.rs: FromStr, Display')], ['easter::punc'])
prop('E03', 'A malformed ESTree description is refused, never a panic',
     """Importing any JSON value either gives a tree or an error: a missing field, a field of the wrong type or an unknown node type is reported as such and never panics or is silently
     accepted where the node requires the field.""",
     ['inputs', 'fault_sequences'], 'every node form with any field removed, retyped or renamed', WHY_P + 'malformed descriptions are never tried.',
     [EF + f for f in ['node.rs', 'expr.rs', 'stmt.rs', 'error.rs', 'result.rs', 'tag.rs']], [('field extraction', EF + 'node.rs'), ('errors', EF + 'error.rs')], ['estree::IntoScript'])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for o in out:
            assert len(o['title']) <= 80, o['title']
            f.write(json.dumps(o, ensure_ascii=False) + '\n')

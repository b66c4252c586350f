"""What each check runs: TLC jobs on the specification, how the real code is bound to each, and
which differences concern which property."""

LEX_CFG = """SPECIFICATION MCSpec
INVARIANT Checked
%sCHECK_DEADLOCK FALSE
CONSTANTS
  Models <- %s
  Seeds <- %s
  UseScripts = %s
  Emit = TRUE
"""


def lex(models, seeds='NoSeeds', scripts=False, progress=False, replay=('lex', 'replay'), **kw):
    cfg = LEX_CFG % ('PROPERTY Progress\n' if progress else '', models, seeds, 'TRUE' if scripts else 'FALSE')
    return dict(dict(module='LexModels', cfg=cfg, replay=replay, family='lex'), **kw)


def lex_random(count, **kw):
    return dict(lex('NoModels', scripts=True), prepare=('lex', ['inputs', 'SEED', str(count), 'OUT']),
                input_env='CONFORM_INPUTS', at_least=count, **kw)


JOBS = {}
for area in ['Trivia', 'Punct', 'Number', 'String', 'Word', 'RegExp', 'Mixed']:
    seeds = {'Number': 'NumberSeeds', 'Word': 'WordSeeds'}.get(area, 'NoSeeds')
    JOBS['lex-' + area.lower()] = lex('Quick' + area, seeds, at_least=30000)
    JOBS['lex-%s-deep' % area.lower()] = lex('Thorough' + area, seeds, at_least=60000, workers=8)
# lexemes of all kinds side by side
JOBS['lex-beside'] = lex('FollowedBy', 'BesideSeeds', module='LexBeside', at_least=100000)
JOBS['lex-beside-deep'] = lex('NoModels', 'BesideMoreSeeds', module='LexBesideMore', at_least=200000, workers=8, heap=8)
# lexemes and trivia of any length
JOBS['lex-pump'] = dict(module='LexPump', cfg="SPECIFICATION PumpSpec\nINVARIANT PumpChecked\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Models <- NoModels\n  Seeds <- NoSeeds\n  UseScripts = FALSE\n  Emit = TRUE\n",
                        replay=('lex', 'pump'), family='lex', at_least=2500)
JOBS['lex-progress'] = lex('Base', progress=True, at_least=1000)
# behaviours joined into long readings
JOBS['lex-sessions'] = lex('Base', 'WordSeeds', replay=('lex', 'sessions', 'SEED'), at_least=10000)
JOBS['lex-sessions-deep'] = lex('QuickMixed', 'WordSeeds', replay=('lex', 'sessions', 'SEED'), at_least=10000, workers=8)
JOBS['lex-random'] = lex_random(4000)
JOBS['lex-random-deep'] = lex_random(40000, workers=8)

BUF_CFG = """SPECIFICATION Spec
INVARIANT Checked
CHECK_DEADLOCK FALSE
CONSTANTS
  Sources <- %s
  MaxCalls = %d
"""
JOBS['buffer'] = dict(module='MCTokenBuffer', cfg=BUF_CFG % ('BufSources', 6), replay=('lex', 'buffer'), family='buf', at_least=100000)
JOBS['buffer-deep'] = dict(module='MCTokenBuffer', cfg=BUF_CFG % ('BufSourcesMore', 7), replay=('lex', 'buffer'), family='buf',
                           at_least=100000, workers=8, heap=8)
TRACE_CFG = """SPECIFICATION Spec
INVARIANT Checked
CHECK_DEADLOCK FALSE
"""
for n, suffix in [(2000, ''), (20000, '-deep')]:
    JOBS['buffer-trace' + suffix] = dict(
        module='TraceTokenBuffer', cfg=TRACE_CFG, prepare=('lex', ['buffer-record', 'SEED', str(n), 'OUT']),
        input_env='CONFORM_TRACES', records='trace', family='buf', at_least=n, workers=8 if suffix else 4)

JOBS['chars'] = dict(module='CharSweep', cfg="SPECIFICATION Spec\nINVARIANT Checked\nCHECK_DEADLOCK FALSE\n",
                     replay=('lex', 'chars'), family='chars', at_least=1)

PARTS_CFG = "SPECIFICATION Spec\nINVARIANT Checked\nCHECK_DEADLOCK FALSE\nCONSTANT Large = %s\n"
for large, suffix in [('FALSE', ''), ('TRUE', '-deep')]:
    JOBS['parts' + suffix] = dict(module='Parts', cfg=PARTS_CFG % large, replay=('lex', 'parts'), family='parts', at_least=15000, heap=3)

JSON_CFG = """SPECIFICATION %s
INVARIANT Checked
%sCHECK_DEADLOCK FALSE
CONSTANTS
  MaxCalls = %d
  Fields <- %s
  Objects <- %s
  BValues <- %s
  LateTypes <- %s
  Walks = %d
  Seed = SEED
"""


def json_job(calls, bvalues, late, fields='PlainFields', objects='PlainObjects', spec='MCSpec', walks=0, **kw):
    return dict(module='MCUnjson', cfg=JSON_CFG % (spec, 'PROPERTY Frame\n', calls, fields, objects, bvalues, late, walks), replay=('lex', 'json'), family='json', **kw)


JOBS['json'] = json_job(2, 'FewValues', 'FewTypes', at_least=100000)
JOBS['json-deep'] = json_job(2, 'MoreValues', 'AllTypes', at_least=100000, workers=8, heap=8)
JOBS['json-ints'] = json_job(1, 'FewValues', 'AllTypes', objects='IntegerObjects', at_least=5000)
JOBS['json-large'] = json_job(1, 'FewValues', 'AllTypes', objects='LargeObjects', at_least=1000)
JOBS['json-wide'] = json_job(2, 'FewValues', 'FewTypes', objects='WideObjects', at_least=1000)
for n, suffix in [(300, ''), (6000, '-deep')]:
    JOBS['json-random' + suffix] = json_job(1, 'FewValues', 'AllTypes', objects='RandomObjects', walks=n, at_least=n * 30)
for n, calls, suffix in [(4000, 8, ''), (60000, 12, '-deep')]:
    JOBS['json-walks' + suffix] = json_job(calls, 'FewValues', 'AllTypes', 'OddFields', 'OddObjects', spec='WalkSpec', walks=n, at_least=n * 9 // 10)

PARSE_CFG = """SPECIFICATION Spec
INVARIANT Checked
CHECK_DEADLOCK FALSE
CONSTANTS
  Models <- %s
  UseScripts = %s
  CheckEntries = %s
  CheckSpread = %s
"""
# areas of spec/ParseModels.tla: (behaviours expected at least in the quick family, in the thorough one)
PARSE_AREAS = ['Expr', 'Stmt', 'Asi', 'Slash', 'Jump', 'Strict', 'Obj', 'Target', 'For', 'Fun', 'Positions', 'Entries', 'Escape']
for area in PARSE_AREAS + ['Gallery']:
    for tier, suffix in [('Quick', ''), ('Thorough', '-deep')]:
        if area == 'Gallery' and suffix:
            continue
        JOBS['parse-%s%s' % (area.lower(), suffix)] = dict(
            module='ParseModels', cfg=PARSE_CFG % (area + tier, 'FALSE', 'TRUE' if area in ('Entries', 'Strict') else 'FALSE', 'TRUE' if area in ('Entries', 'Asi', 'Gallery', 'Slash') else 'FALSE'), replay=('parse', 'replay'), family=area.lower(),
            at_least=10000, workers=8 if suffix else 6, heap=10 if suffix else 5)
for n, suffix in [(6000, ''), (60000, '-deep')]:
    JOBS['parse-random' + suffix] = dict(
        module='ParseModels', cfg=PARSE_CFG % ('NoModels', 'TRUE', 'TRUE', 'TRUE'), prepare=('parse', ['inputs', 'SEED', str(n), 'OUT']),
        input_env='CONFORM_INPUTS', replay=('parse', 'replay'), family='random', at_least=n * 9 // 10,
        workers=8 if suffix else 4, heap=10 if suffix else 5)

# programs of any length and nesting
JOBS['parse-long'] = dict(module='ParsePump', cfg=(PARSE_CFG % ('NoModels', 'FALSE', 'TRUE', 'TRUE')).replace('SPECIFICATION Spec', 'SPECIFICATION PumpSpec').replace('INVARIANT Checked', 'INVARIANT PumpChecked'),
                          replay=('parse', 'pump'), family='long', at_least=1200)

ES_CFG = """SPECIFICATION %s
INVARIANT %s
CHECK_DEADLOCK FALSE
CONSTANTS
  Models <- %s
  UseScripts = %s
  CheckEntries = FALSE
  CheckSpread = FALSE
"""
FAULT_CFG = """  Programs <- %s
  MaxFaults = %d
  AllTags = %s
"""


def es(models, scripts='FALSE', **kw):
    return dict(module='EsModels', cfg=ES_CFG % ('Spec', 'RoundTripped', models, scripts), replay=('parse', 'estree'), family='estree', **kw)


def es_faults(programs, faults, tags, **kw):
    return dict(module='MCEsTree', cfg=ES_CFG % ('ESpec', 'EChecked', 'NoModels', 'FALSE') + FAULT_CFG % (programs, faults, tags),
                replay=('parse', 'estree'), family='faults', **kw)


JOBS['estree'] = es('EsQuick', at_least=3000, heap=4)
JOBS['estree-deep'] = es('EsThorough', at_least=100000, workers=8, heap=8)
for n, suffix in [(4000, ''), (40000, '-deep')]:
    JOBS['estree-random' + suffix] = es('NoModels', 'TRUE', prepare=('parse', ['inputs', 'SEED', str(n), 'OUT']), input_env='CONFORM_INPUTS',
                                        at_least=n // 2, workers=8 if suffix else 4, heap=10 if suffix else 5)
JOBS['estree-faults'] = es_faults('OneOfEach', 1, 'TRUE', at_least=30000)
JOBS['estree-faults-deep'] = es_faults('Tiny', 2, 'FALSE', at_least=400000, workers=8, heap=8)
JOBS['operators'] = dict(module='Operators', cfg="SPECIFICATION Spec\nINVARIANT Checked\nCHECK_DEADLOCK FALSE\n",
                         replay=('parse', 'operators'), family='ops', at_least=600, workers=2, heap=2)

JOBS['derived'] = dict(module='Derive', cfg="SPECIFICATION Spec\nINVARIANT Checked\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = 2\n",
                       replay=('parse', 'derived'), family='derived', at_least=60000, heap=4)

TREES_CFG = """SPECIFICATION TSpec
INVARIANT TChecked
CHECK_DEADLOCK FALSE
CONSTANTS
  Models <- NoModels
  UseScripts = FALSE
  CheckEntries = FALSE
  CheckSpread = FALSE
  Programs <- %s
  MaxChanges = %d
"""
JOBS['trees'] = dict(module='MCTrees', cfg=TREES_CFG % ('Some', 1), replay=('parse', 'trees'), family='trees', at_least=4000)
JOBS['trees-short'] = dict(module='MCTrees', cfg=TREES_CFG % ('Short', 2), replay=('parse', 'trees'), family='trees', at_least=10000)
JOBS['trees-deep'] = dict(module='MCTrees', cfg=TREES_CFG % ('Some', 2), replay=('parse', 'trees'), family='trees', at_least=50000, workers=8, heap=8)
JOBS['reports'] = dict(module='Reports', cfg="SPECIFICATION Spec\nINVARIANT Checked\nCHECK_DEADLOCK FALSE\n", replay=('parse', 'reports'), family='reports',
                       at_least=400, workers=2, heap=2)

LEX_ASSUME = [
    "exhaustive for the stated alphabets and lengths, and over every decision of the slash mode at each token; longer inputs are sampled",
    "the Unicode ID_Start/ID_Continue tables of the specification were taken from the ucd 0.1.1 crate the project depends on",
    "the harness decodes tokens through the public API of the tokenizer; the Rust standard library's decimal parsing is trusted as the rounding oracle",
]
BUF_ASSUME = ["the client obeys the documented protocol: at most two tokens pushed back, reread/repeek only while a token is buffered, no calls after an error"]
PARTS_ASSUME = ["questions are taken from the stated sets of texts, literals, sources, spans, structures and errors; the standard library's decimal parsing is the rounding oracle"]
JSON_ASSUME = ["values are taken from a set with every JSON type and the boundary integers and floats"]

PARSE_ASSUME = [
    "exhaustive over the token sequences of the stated openings, alphabets and lengths; longer programs are sampled by a seeded grammar-based generator",
    "identifiers, numbers and strings are represented by a few spellings each; the tokenizer's own properties (L01-L12) cover their lexical variety",
    "the linearisation of the real tree into the specification's events (harness/parse/src/events.rs) is trusted",
]

ES_ASSUME = [
    "documents are the specification's descriptions of the programs of the stated models, whole or with one (thorough: two) changes anywhere in them",
    "array and object patterns are described the way the reader takes them; literal nodes are told apart by their value",
]

TREES_ASSUME = [
    "pairs are a program with one node of every kind, or one of its changes, and the same with one (thorough: two) changes of a token: replaced, left out, exchanged, repeated",
    "identifiers, numbers and strings are represented by a few spellings each (equality of literals: L14)",
]
REPORT_ASSUME = ["one error of every kind; wording is required to contain the words of the specification, not to be them"]

PANIC = [r'.*/(panic.*|hang|crash)']


def P(tags, quick, thorough, assumptions, **kw):
    return dict(tags=tags + PANIC, quick=quick, thorough=thorough, assumptions=assumptions, **kw)


def L(tags, quick, thorough):
    tags = ['lex/' + t for t in tags]
    return P(tags, quick + ['lex-beside', 'lex-pump', 'lex-sessions', 'lex-random'], thorough + ['lex-beside', 'lex-beside-deep', 'lex-pump', 'lex-sessions-deep', 'lex-random-deep'], LEX_ASSUME, parallel=3)


def parts(tags):
    return P(['parts/' + t for t in tags], ['parts'], ['parts', 'parts-deep'], PARTS_ASSUME)


def both(*areas):
    return ['lex-' + a for a in areas], ['lex-%s-deep' % a for a in areas]


VERDICT = r'(layout:)?(tree|accept|reject|errkind|errtext)(:.*)?'


def Y(areas, events, errors='', extra=(), random=True):
    """A parser property: every difference in its own areas, differences in the given events or errors in random programs."""
    tags = ['(%s)/%s' % ('|'.join(areas), VERDICT), r'(random|long)/(layout:)?tree:(extra:)?(%s)' % events]
    if errors:
        tags.append(r'(random|long)/(layout:)?(accept|reject|errkind|errtext):(%s)' % errors)
    quick, thorough = ['parse-' + a for a in areas], ['parse-%s-deep' % a for a in areas]
    if random:
        quick, thorough = quick + ['parse-random', 'parse-long'], thorough + ['parse-random-deep', 'parse-long']
    return P(tags + list(extra), quick, thorough, PARSE_ASSUME, parallel=2)


def with_jobs(p, *jobs):
    return dict(p, quick=p['quick'] + list(jobs), thorough=p['thorough'] + list(jobs))


# differences in any verdict of a random program concern whatever property the construct belongs to
SYNTAX = 'UnexpectedToken|UnsupportedFeature|LexError'
STMT_EVENTS = 'if|while|dowhile|for.*|in-.*|of-.*|switch|case|try|catch|with|throw|debugger|block|empty|none|return|break|continue|label|expression|var|let|const'
EXPR_EVENTS = 'binary|logical|prefix|postfix|conditional|assign|seq|member|index|call|new|new.target|spread|id|number|string|regexp|null|true|false|this'

JSON_QUICK = ['json', 'json-ints', 'json-large', 'json-wide', 'json-random', 'json-walks']
JSON_DEEP = ['json-deep', 'json-ints', 'json-large', 'json-wide', 'json-random-deep', 'json-walks-deep']

PROPERTIES = {
    'L01': L([r'eof:stable'], ['lex-mixed', 'lex-progress'], ['lex-mixed-deep', 'lex-progress']),
    'L02': L([r'extent:.*', r'linecol', r'trivia:start'], *both('mixed')),
    'L03': L([r'linecol', r'extent:posn'], *both('mixed')),
    'L04': L([r'trivia:.*', r'newline', r'(reject|errkind):comment:.*', r'accept:eof', r'kind:eof'], *both('trivia')),
    'L05': L([r'.*:punct', r'.*:punct:.*', r'(kind|extent|accept|value):slash'], *both('punct')),
    'L06': L([r'.*:(slash|regexp)', r'.*:(slash|regexp):.*'], *both('regexp')),
    'L07': L([r'.*:number', r'.*:number:.*'], *both('number')),
    'L08': L([r'.*:string', r'.*:string:.*'], *both('string')),
    'L09': L([r'.*:word', r'.*:word:.*'], *both('word')),
    'L10': P([r'buf/.*'], ['buffer', 'buffer-trace'], ['buffer-deep', 'buffer-trace-deep'], BUF_ASSUME),
    'L11': P([r'chars/.*'], ['chars'], ['chars'], LEX_ASSUME[1:]),
    'L12': L([r'reject:.*', r'errkind:.*'], *both('mixed', 'number', 'string', 'word', 'regexp')),
    'L13': parts([r'name:.*']),
    'L14': parts([r'equal:.*', r'source:.*']),
    'L15': parts([r'span:.*', r'forget']),
    'L16': parts([r'message:joker']),
    'U04': parts([r'message:(unjson|type|made)']),
    'U01': P([r'json/answer:.*'], JSON_QUICK, JSON_DEEP, JSON_ASSUME),
    'U02': P([r'json/state:.*', r'json/answer:.*:missing', r'json/answer:extract:.*'], JSON_QUICK, JSON_DEEP, JSON_ASSUME),
    'U03': P([r'json/answer:.*:opt:.*', r'json/answer:(get|extract):field:.*'], JSON_QUICK, JSON_DEEP, JSON_ASSUME),

    'P01': P([r'(positions|random|long|escape)/accept:UnsupportedFeature', r'(positions|random|long)/(layout:)?errkind:UnsupportedFeature'],
             ['parse-positions', 'parse-escape', 'parse-random', 'parse-long'], ['parse-positions-deep', 'parse-escape-deep', 'parse-random-deep', 'parse-stmt-deep', 'parse-long'], PARSE_ASSUME, parallel=2),
    'P02': Y(['stmt'], STMT_EVENTS, SYNTAX + '|OrphanTry|DuplicateDefault|ThrowArgument'),
    'P03': Y(['expr'], EXPR_EVENTS, SYNTAX),
    'P04': Y(['asi'], 'semicolon', 'FailedASI|UnexpectedToken|ThrowArgument'),
    'P05': Y(['slash'], 'regexp|binary|assign', SYNTAX),
    'P06': Y(['jump'], 'break|continue|label|return', 'IllegalBreak|IllegalContinue|InvalidLabel|InvalidLabelType|TopLevelReturn'),
    'P07': Y(['strict', 'escape'], 'directive', 'StrictWith|ContextualKeyword|IllegalStrictBinding'),
    'P08': with_jobs(Y(['entries'], 'none!', '', [r'.*/entry:.*', r'reports/perform'], random=True), 'reports'),
    'P09': Y(['obj', 'escape'], r'key-.*|object|array|hole|init|getter|setter|method|shorthand|fun', SYNTAX),
    'P10': Y(['target'], 'assign|prefix|postfix|in-expr|of-expr|array|object', 'InvalidLHS'),
    'P11': Y(['for', 'escape'], 'for.*|in-.*|of-.*|dtor|cdtor', SYNTAX + '|InvalidLHS'),
    'P12': P([r'.*/layout:.*', r'.*/untrack:layout'], ['parse-gallery', 'parse-asi', 'parse-random', 'parse-long'],
             ['parse-gallery', 'parse-asi-deep', 'parse-positions', 'parse-random-deep', 'parse-long'], PARSE_ASSUME, parallel=2),
    'P13': P([r'.*/loc:.*'], ['parse-gallery', 'parse-random', 'parse-long'],
             ['parse-gallery', 'parse-expr', 'parse-stmt', 'parse-obj', 'parse-for', 'parse-fun', 'parse-jump', 'parse-strict', 'parse-random-deep', 'parse-long'], PARSE_ASSUME, parallel=2),
    'P14': P([r'.*/untrack:.*'], ['parse-gallery', 'parse-random', 'parse-long'],
             ['parse-gallery', 'parse-expr', 'parse-stmt', 'parse-obj', 'parse-for', 'parse-fun', 'parse-target', 'parse-random-deep', 'parse-long'], PARSE_ASSUME, parallel=2),
    'P15': P([r'.*/(layout:)?(errkind|errpos|errtext|accept):.*'], ['parse-positions', 'parse-random', 'parse-long'], ['parse-positions-deep', 'parse-random-deep', 'parse-long'],
             PARSE_ASSUME, parallel=2),
    'P16': P([r'derived/.*'], ['derived'], ['derived'],
             ["one recursive type with every shape the derives support, its values up to depth two; the derives run on the project's own macro crate over a stand-in for the syn crate"]),
    'P17': Y(['fun', 'escape'], 'fun|funexpr|declaration|dtor|cdtor|var|let|const|rest|id|catch', SYNTAX + '|IllegalStrictBinding|ContextualKeyword'),

    'P18': P([r'trees/(equal|print|clone|reject).*', r'trees/(tree|loc):.*'], ['trees', 'trees-short'], ['trees', 'trees-short', 'trees-deep'], TREES_ASSUME, parallel=2),
    'P19': P([r'trees/convert:.*'], ['trees'], ['trees', 'trees-short', 'trees-deep'], TREES_ASSUME, parallel=2),
    'P20': P([r'reports/(names|cause|passed|same|apart|reading)'], ['reports'], ['reports'], REPORT_ASSUME),

    'E01': P([r'estree/.*'], ['estree', 'estree-random'], ['estree-deep', 'estree-random-deep'], ES_ASSUME, parallel=2),
    'E02': P([r'ops/.*', r'estree/(tree|same|rejects|accepts).*(binary|logical|assign|prefix|postfix|[Oo]perator).*', r'expr/(tree|accept|reject).*(binary|logical|assign|prefix|postfix).*'],
             ['operators', 'estree', 'parse-expr'], ['operators', 'estree-deep', 'parse-expr-deep'], ES_ASSUME, parallel=2),
    'E03': P([r'faults/.*'], ['estree-faults'], ['estree-faults', 'estree-faults-deep'], ES_ASSUME, parallel=2),
}

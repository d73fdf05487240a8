#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level='proof', note='', na=None):
    P.append(dict(p={'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                     'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}},
                  t=technique, l=level, n=note, na=na))


TOK = 'nanvm-lib/src/tokenizer/mod.rs'
AI = 'MIR abstract interpretation to a fixpoint, checked for simulation against a specification automaton'
AINOTE = ('Sound for inputs of every length, given the trusted base: rustc MIR, the transfer functions and std summaries in vf/, '
          'and the reference automaton. No execution and no solver: intervals, affine forms and register abstraction only. ')

prop('T01', 'Number literals carry exactly the digits, sign and exponent written',
     'For every source text, each decimal or bigint literal becomes one token whose sign (negative zero included), complete digit string and decimal exponent (number of fraction digits plus signed exponent part) reach the final conversion exactly as written, where exponents outside the range of a double denote infinity or zero. '
     'Text that starts like a number but is not a well-formed literal (leading zero, missing digits after a point, exponent or minus, a letter, point or digit glued to its end) yields one invalid-number error token in its place, and scanning resumes at the offending character. '
     'The accuracy of the final conversion to a double is not part of this property.',
     ['inputs'], 'all source texts of any length, all characters',
     'The tests sample a few dozen literals; digits, exponents and follow-up characters are unbounded.',
     [TOK], [('number states and their transition tables', TOK)], AI, 'proof', AINOTE)
prop('T02', 'String literals denote exactly the characters and escapes written',
     'For every source text, a string literal yields one string token containing exactly the code points written, with each of the eight simple escapes, four-digit unicode escapes in either hexadecimal case and surrogate-pair escapes replaced by the code point they denote. '
     'A malformed escape or lone surrogate yields its error token at that place without losing the string characters around it, and a string still open at the end of the input yields one missing-quotes error.',
     ['inputs'], 'all source texts of any length, all Unicode scalar values',
     'The tests sample a few escapes; every combination of escapes, hexadecimal digits and neighbours is out of reach.',
     [TOK], [('string, escape and unicode-escape states', TOK)], AI, 'proof', AINOTE)
prop('T03', 'Comments vanish and white space folds into single newline tokens',
     'For every source text, line comments (ended by a line feed or a carriage return) and block comments (ended by the first asterisk-solidus) yield no token, an unterminated block comment or a stray solidus yields its error token, and a line comment that ends counts as a line break. '
     'Each maximal run of white space that starts at a line break and is followed by something yields exactly one newline token; all other white space yields none, and a run at the very end of the input yields none.',
     ['inputs'], 'all source texts of any length',
     'The tests contain a handful of comments; runs of asterisks, mixed line ends and nesting attempts are unbounded.',
     [TOK], [('comment and new-line states', TOK)], AI, 'proof', AINOTE)
prop('T04', 'Identifiers and operators are split maximally and in source order',
     'For every source text, each maximal run of letters, digits, underscores and dollar signs that does not start with a digit yields one identifier token with exactly that text, each of the eleven operator characters yields exactly its own token, and every character that can start no token yields one unexpected-character error. '
     'Tokens come out in source order, none is lost, duplicated or invented between them.',
     ['inputs'], 'all source texts of any length, all Unicode scalar values',
     'The tests check short fixed snippets only.',
     [TOK, 'nanvm-lib/src/range_map.rs'], [('initial, identifier and operator states', TOK), ('character range tables', 'nanvm-lib/src/range_map.rs')], AI, 'proof', AINOTE)
prop('T05', 'Tokenizing never panics',
     'Tokenizing terminates normally, without a panic of any kind (arithmetic overflow, failed unwrap, index out of bounds, unreachable code), for every source text, however malformed.',
     ['inputs'], 'all source texts of any length',
     'Panics hide in inputs nobody wrote a test for, for example very long exponents.',
     [TOK], [('all tokenizer states', TOK)], AI, 'proof', AINOTE + 'Running out of memory and overflow inside the arbitrary-precision primitives are excluded.')
prop('T06', 'Incremental tokenizing equals batch tokenizing and the end is final',
     'Pulling tokens one at a time from any character iterator, or pushing characters one at a time, yields exactly the tokens of tokenizing the whole text at once, each as soon as the characters that decide it have been seen. '
     'Once the end has been reported every further pull reports the end again and the character source is not asked again.',
     ['inputs', 'histories'], 'all source texts, all interleavings of pulls and pushes',
     'The tests tokenize whole strings only.',
     [TOK, 'nanvm-lib/src/parser/analyzer.rs'], [('token iterator and its cache', TOK), ('push interface', TOK)], AI, 'proof', AINOTE)


exec(open(os.path.join(V, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props_more.py')) else None


def main():
    with open(V + '/properties.jsonl', 'w') as o:
        for x in P:
            o.write(json.dumps(x['p'], ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable': []}
    for x in P:
        if x['na']:
            m['not_applicable'].append({'property': x['p']['id'], 'reason': x['na']})
            continue
        m['checks'].append({'property': x['p']['id'], 'quick_cmd': 'python3 check.py %s' % x['p']['id'],
                            'thorough_cmd': 'python3 check.py %s --thorough' % x['p']['id'],
                            'technique': x['t'], 'level': x['l'], 'level_note': x['n'].strip()})
    m['notes'] = 'setup only proves that the extractor builds; every check rebuilds the extractor and re-extracts the facts from /repo into a scratch directory it removes.'
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)


main()

#!/usr/bin/env python3
"""
Writes MANIFEST.json. A property is claimed as soon as it has a check in
mc/checks; the wording is here.
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = 'explicit-state model checking: '
T = {
    'P01': MC + 'all byte/line sequences to a bound, decoder and line-format '
           'automaton replayed against the real reader',
    'P02': MC + 'all lines to a bound, comment automaton replayed against '
           'the real reader',
    'P03': MC + 'all include graphs and failing opens to a bound, file-stack '
           'machine replayed against the real parser',
    'P04': MC + 'all lines and line histories to a bound, classifier and '
           'context machine replayed against the real parser',
    'P05': MC + 'layout automaton; all layouts, a trace per reachable '
           'transition, and all include trees replayed',
    'P06': MC + 'priority/label machine; all line histories to a bound '
           'replayed against the real dialplan aggregator',
    'P07': MC + 'all line histories to a bound, modelled listing compared '
           'with dialplan-show and fed back',
    'P08': MC + 'all patterns x all extensions to a bound, set-sequence '
           'matcher against the real one',
    'P09': MC + 'all patterns and sets to a bound, semantic equivalence '
           'and fixpoint of the real canonical form',
    'P10': MC + 'all pairs of bounded patterns and all permutations of '
           'pattern sets in dialplans',
    'P11': MC + 'all include graphs x destinations x jump forms to a bound, '
           'reachability model replayed against the real walk',
    'P12': MC + 'all data strings to a bound, argument-splitter automaton '
           'and validation model replayed',
    'P13': MC + 'all strings to a bound, push-down balance automaton '
           'replayed against the real checks',
    'P14': MC + 'all strings to a bound, recursive substitution model '
           'and evaluator replayed',
    'P15': MC + 'all applications x case variants x call forms x versions '
           'against a registry model',
    'P16': MC + 'all functions x case variants x positions x versions and '
           'all call-syntax strings to a bound',
    'P17': MC + 'all call combinations to a bound against a usage model, '
           'run through the real command',
    'P18': MC + 'all key histories to a bound against a key-order machine, '
           'run through the real parser and commands',
    'P19': MC + 'all ignore configurations x finding sets, run through the '
           'real commands in their own process',
    'P20': 'exhaustive fault and crash-point enumeration of the real file '
           'mutator over a stepped file-system',
    'P21': MC + 'all documents of a few tokens in every syntactic position, '
           'run through the real commands with hang detection',
    'P22': MC + 'all histories of documents and requests to a bound, against '
           'a fresh process per document',
    'P23': MC + 'all identifier sets to a bound against a set model, run '
           'through the real command',
    'P24': MC + 'all command-directory configurations to a bound, run '
           'through the real dispatcher',
    'P29': MC + 'all lines and files to a bound, against the real plain '
           'reader on the file a model says is the same',
    'P28': MC + 'all key histories and statement combinations to a bound '
           'against a model of the statements, run through the real command',
    'P27': MC + 'all commands x spellings x file states to a bound against a '
           'model of which file is read, with snapshots of the disk',
    'P26': MC + 'all request shapes and all include directives to a bound '
           'against a model of the service, with a watch on file access',
    'P25': MC + 'all small file trees to a bound, run through the real '
           'rewriters and compared byte by byte',
}
NOTE = ('Exhaustive within the bounds listed in the evidence file: every '
        'behaviour of the model up to the bound is replayed on the code in '
        '/repo and compared. Trusts the reference model in mc/ref and '
        'mc/checks, and the small-scope argument in DESIGN.md for what is '
        'beyond the bounds.')


def main():
    props = []
    with open(os.path.join(VERIF, 'properties.jsonl')) as f:
        for line in f:
            props.append(json.loads(line)['id'])
    checks, rest = [], []
    for p in props:
        if os.path.exists(os.path.join(
                VERIF, 'mc', 'checks', p.lower() + '.py')):
            checks.append({
                'property': p,
                'quick_cmd': './run.sh %s quick' % p,
                'thorough_cmd': './run.sh %s thorough' % p,
                'evidence_file': 'evidence/%s.json' % p,
                'technique': T[p],
                'level': ('fault_enumeration' if p == 'P20'
                          else 'model_checking'),
                'level_note': NOTE,
            })
        else:
            rest.append({'property': p, 'reason': 'no check built (yet)'})
    manifest = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'hooks': {
            'guard': 'ASTERISKLINT_MC',
            'enable': 'not needed: no hooks were added, the checks drive '
                      'the interfaces that the commands use',
            'source_commits': [],
        },
        'checks': checks,
        'not_applicable': rest,
        'notes': 'run.sh ID [quick|thorough]; replay.sh FILE shows one '
                 'violation again. See DESIGN.md.',
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed')


main()

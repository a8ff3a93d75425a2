#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
T = 'TLA+ engine specification: TLC model checking of the design, TLC trace inclusion of runs recorded under controlled schedules'
V = 'TLA+ specification evaluated by TLC on generated inputs, compared with runs of the real code'
CHECKS = {
 'C01': (T, 'model_checking', 'runs of the real bab on generated programs with many shared references, checked to be behaviours of Engine.tla; design exhaustive on small programs'),
 'C02': (T, 'model_checking', 'as C01, programs with dependency lists, item sequences and parallel blocks with dependencies'),
 'C03': (T, 'model_checking', 'as C01, every command of the program failing in turn, plus non-command failures'),
 'C04': (T, 'model_checking', 'as C01, limits and modes, with demanded filling of free places; terminal and non-terminal'),
 'C05': (T, 'model_checking', 'as C01, eight schedules per program, outcome compared with a schedule-free denotation'),
 'C06': (T, 'model_checking', 'as C01, conditions and platforms on tasks, items and parallel items'),
 'C07': (T, 'model_checking', 'as C01, with a cancellation at every number of started commands, process trees and the live view'),
 'C09': (T, 'model_checking', 'as C01, same-named variables and prompts in many scopes, included Babfiles'),
 'C08': (T, 'model_checking', 'dry and real runs of generated programs against Dry.tla; the derivation of the preview from the engine specification is model checked'),
 'C10': (V, 'model_checking', 'Load.tla evaluated by TLC on generated file sets (references, cycles, aliases, includes), compared with what every loading command of the real bab does'),
 'C11': (V, 'model_checking', 'Effects.tla evaluated by TLC on generated file sets, compared with runs from the including and from the included Babfile'),
 'C12': (V, 'model_checking', 'Load.tla name tables, compared with runs by name and alias, --list and completion'),
 'C13': (V, 'model_checking', 'Discover.tla: the search model checked, trees of directories with files, directories and links compared with what every command of the real bab uses; all 243 contents of one directory'),
 'C14': (V, 'model_checking', 'Grammar.tla evaluated by TLC on generated documents (every kind of item and key, faults of every key, anchors, both styles), compared with validation, the lines named and the effects of running'),
 'C15': (V, 'model_checking', 'Load.tla and Effects.tla findings with their places, compared with the messages of the real bab'),
 'C16': (V, 'model_checking', 'Values.tla substitution evaluated by TLC on generated texts, compared with what a recording shell received'),
 'C17': (V, 'model_checking', 'Values.tla conditions evaluated by TLC on generated conditions and values, compared with the items that ran'),
 'C18': (V, 'model_checking', 'Effects.tla environments compared with the environments recorded by the commands'),
 'C19': (V, 'model_checking', 'Effects.tla directories compared with the directories recorded by the commands'),
 'C20': (V, 'model_checking', 'Effects.tla display compared with the output of runs'),
 'C21': ('TLA+ specification of the prompt forms: TLC model checking of every short key sequence, behaviours generated with TLC and replayed into the real program over a pseudo terminal', 'model_checking', 'generated prompt definitions and key sequences; what Prompt.tla stores, refuses or cancels is compared with what the real bab hands to the next command'),
 'C24': ('TLA+ specification of the live views: TLC model checking against the history of the run, behaviours evaluated with TLC and replayed into the real views and into real runs over a pseudo terminal', 'model_checking', 'generated message sequences through the two views of the real code; real runs of nested grouped and tabbed blocks under control, every screen compared with ViewRun.tla'),
 'C25': ('TLA+ specification of the task picker: TLC model checking of every short key sequence, behaviours generated with TLC and replayed into the real program over a pseudo terminal', 'model_checking', 'generated task sets and key sequences; after every key the screen is compared with the list, query and cursor of Picker.tla, at the end the task that runs'),
 'C22': ('TLA+ specification of the output flow: TLC model checking (independence of write splitting), TLC trace inclusion of recorded writes and output', 'model_checking', 'writes of controlled commands in random pieces and order, checked against Lines.tla; bulk outputs against BulkCheck.tla'),
 'C23': ('TLA+ specification of output cleaning: TLC model checking against an independent terminal model, TLC trace inclusion of recorded writes and output', 'model_checking', 'as C22 with control sequences of all kinds, cut anywhere'),
  'C26': ('TLA+ specification of the update check: TLC model checking of every short history of runs, answers, failures and time; generated histories evaluated with TLC and replayed against the real program and a controlled release service', 'model_checking', 'histories of runs of several versions against a release service under control: requests, notice, stored record and outcome compared with Update.tla'),
 'C27': ('TLA+ specification of a file system that loses what was not synced: TLC explores every interleaving and stop of the file operations recorded from real runs', 'model_checking', 'recorded file operations of real writers in CacheFs.tla, plus real stops, failures and delays at system calls'),
 'C28': ('TLA+ specification of the documents an editor accepts, evaluated by TLC on generated documents and compared with the verdicts of a JSON schema validator on the generated and the published schema and of the program', 'model_checking', 'generated documents, valid and with wrong, missing or foreign keys; every key with many values'),
 'C29': ('TLA+ specification of the standard streams: TLC model checking of every short history, recorded histories of real runs evaluated against it with TLC', 'model_checking', 'reads, writes and arrivals of input in controlled orders on generated programs, pipes, files and a terminal; what is left in the input and both outputs compared byte for byte'),
 'C30': ('TLA+ specification of what a run shows, evaluated with TLC over generated sets of Babfiles and compared with the lines of real runs', 'model_checking', 'generated Babfile sets with log items of every level in every place, inside and outside parallel blocks, with and without --verbose; every message compared with the specified one'),
 'C31': ('TLA+ specification of the installer as a step machine; TLC model checking of every combination of faults, real runs of install.sh against a stand-in release service judged against it with TLC', 'model_checking', 'generated platforms, requests, answers, tools, failures and kills at every step; target directory, requests and exit status compared with the specification'),
 'C32': ('TLA+ specification of a reporter whose order is open: TLC model checking of two reporters on the same files (and refutation when the order is left to chance), reports of repeated real runs and the names they offer judged with TLC', 'model_checking', 'generated Babfile sets with several problems at once, each command run many times; every report equal, every offered name in the specified scope'),
 'C33': ('TLA+ specification of the command line as a machine reading words; TLC model checking of every short command line, real invocations judged against it with TLC', 'model_checking', 'generated command lines over generated Babfiles; what was executed, shown and returned compared with the specification'),
}
NA = {}
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[
    dict(property=i, quick_cmd='python3 checks/check.py ' + i, thorough_cmd='python3 checks/check.py %s thorough' % i,
         technique=CHECKS[i][0], level=CHECKS[i][1], level_note=CHECKS[i][2]) for i in ids if i in CHECKS],
    not_applicable=[dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in CHECKS])
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); print(len(m['checks']), len(m['not_applicable']))

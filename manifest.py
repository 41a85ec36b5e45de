#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand; the checks do not use it)."""
import json
T={
'C01':'stateless model checking of the lexer: every character sequence to a depth, reconstruction monitor and reference lexer',
'C02':'stateless model checking of the lexer against a reference lexer, every character sequence to a depth',
'C03':'stateless model checking of the lexer with an instrumented source: every step, clone point and interruption',
'C04':'stateless model checking: every text/token sequence to a depth at every entry point, crash and loop monitor',
'C05':'stateless model checking against a reference parser with absolute positions',
'C06':'stateless model checking against a reference parser (lists, and-or, pipelines)',
'C07':'stateless model checking against a reference parser, prefix-closed error oracle',
'C08':'stateless model checking against a reference parser (compound commands, reserved words)',
'C09':'stateless model checking against a reference parser (words, quoting)',
'C10':'stateless model checking against a reference parser (parameters)',
'C11':'stateless model checking: embedding of every program in substitutions, and reference parser',
'C12':'stateless model checking against a reference parser and literal evaluator (arithmetic)',
'C13':'stateless model checking against a reference parser (redirections)',
'C14':'stateless model checking against a reference parser (here-documents)',
'C15':'stateless model checking: comment ledger against a reference parser, comment insertion at every place',
'C16':'stateless model checking: every layout change of every program at every place, and reference parser',
'C17':'stateless model checking: every builder on every input, trees unfolded and compared',
'C18':'exhaustive fault injection: every builder callback of every program fails once',
'C19':'stateless model checking with an instrumented source: every chunking at command boundaries',
'C20':'stateless model checking of operation sequences on the public parser API against the reference parser',
'C21':'stateless model checking: every parameter, token and error rendered and read back',
'C22':'stateless model checking of iteration histories, with sources that resume after their end',
'C23':'stateless model checking of every token sequence to a depth, and every division of programs into tokens, against a reference parser',
}
N={
'C18':'Every fault point of every input of the bounded spaces is tried on the real parser. Assumes the builder is deterministic, as the harness\'s recording builder is.',
}
base=('Exhaustive over the bounded input spaces listed in the evidence file (every path of the choice tree, each run on the real code); '
      'beyond these bounds nothing is claimed. Trusts the reference lexer/parser in harness/src (independent code, bound to the implementation by comparing every explored input) and rustc.')
checks=[]
for i in sorted(T):
    checks.append({'property':i,'quick_cmd':f'./check.sh {i} quick','thorough_cmd':f'./check.sh {i} thorough','evidence_file':f'evidence/{i}.json','technique':T[i],'level':'model_checking','level_note':N.get(i,base)})
m={'version':1,'setup_cmd':'./check.sh --build','hooks':{'guard':'none','enable':'No hooks: the checks use the public API only; /repo carries fix commits only.','source_commits':[]},'checks':checks,'not_applicable':[],
'notes':'See DESIGN.md. ./check.sh ID quick|thorough rebuilds the checker from /repo and /verif/harness; known-findings.txt lists recorded and repaired defects.'}
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False); open('MANIFEST.json','a').write('\n')

#!/usr/bin/env python3
import json
LEX="Lex and ReLex of ecmascript/lexer (with everything they call inlined) against an automaton written from ECMA-262 12 and the contract of lexer.Scanner; all inputs, all lengths. "
TR="Trusted: govc (VC generator), go/ssa, z3, contracts of the library functions used (listed in the evidence). "
NOTES={
'C07':LEX+TR+"Optional chaining, template literals and \\u escapes in names are outside the supported grammar.",
'C08':LEX+TR,
'C17':LEX+TR,
}
import os,sys
sys.path.insert(0,os.path.dirname(__file__))
try:
    from notes import MORE, NA
    NOTES.update(MORE)
except ImportError:
    NA={}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NOTES:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":"contract-based deductive verification (govc VC generator on go/ssa of /repo, z3 back end); failing inputs searched on the real code","level":"proof","level_note":NOTES[i]})
    else:
        na.append({"property":i,"reason":NA.get(i,"not claimed yet: the contracts for it are not finished")})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)

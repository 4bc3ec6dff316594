#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from the table below."""
import json,subprocess
DIFF='differential runtime monitoring of the real compiler and VM against an independent reference evaluator over generated programs'
NOTE='generated and mutated programs are run in the real interpreter (in process, debug assertions on) and in an independent reference evaluator; output, outcome and error are compared for every run; no exhaustive claim'
T={}
for i in ['C01','C02','C03','C04','C05','C06','C07','C08','C09','C10','C11','C12','C13','C14','C15','C16','C17','C18','C19','C20','C21','C22','C23']: T[i]=(DIFF,NOTE)
T['C17']=('runtime monitoring of scanner, compiler, highlighter, disassembler and prompt over generated and corrupted texts, with a reference scanner as oracle','crash, termination, determinism and report-format monitors on every text; literal values, layout independence and continuation of entries are compared with an independent scanner and parser')
T['C18']=('runtime monitoring of every operation and native function on hostile values, with crash, termination and state-canary monitors','values of every type, self-referential data and mutating callbacks; the machine must return a value or one formatted error, and compute canary programs correctly afterwards')
T['C19']=('AddressSanitizer build of the real interpreter plus valgrind memcheck and an allocation-balance monitor','the real code instrumented by ASan runs generated, mutated and misuse programs and sessions; live heap blocks before and after a run are compared for leaks; a sample runs under memcheck for uninitialised reads')
T['C20']=('differential runtime monitoring of the real prompt against an independent reference session','every entry of generated sessions (errors, closures, continued input, redeclarations) is compared with the reference evaluated over the same history')
T['C21']=('runtime monitoring of error reports against the line and call chain computed by an independent reference evaluator','message, source line, quoted text, underline and chain of calls of each runtime error of generated programs are compared with the reference')
T['C22']=('runtime monitoring of the built command line tool as a process: its streams, files, exit and error reports against models of them','the process is run in scratch directories on generated programs, inputs, arguments, environments, files and options (invalid UTF-8, missing files, split input); bytes of standard output, error stream and files are compared')
T['C23']=('runtime monitoring of calls through the foreign interface: C libraries that describe what they received, against the same program with ordinary modules in the reference evaluator','libraries compiled by gcc and clang are linked to the built tool; every printed result and every error is compared')
NA={}
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m={'version':1,
 'setup_cmd':'/verif/check.sh setup',
 'hooks':{'guard':'none','enable':'no hooks are needed: the monitors use the public API of cordy_sys and the cordy binary','source_commits':[]},
 'checks':[{'property':i,'quick_cmd':f'/verif/check.sh {i} quick','thorough_cmd':f'/verif/check.sh {i} thorough','technique':T[i][0],'level':'exploration','level_note':T[i][1]} for i in ids if i in T],
 'not_applicable':[{'property':i,'reason':NA.get(i,'check under construction')} for i in ids if i not in T]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)

import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
lib="deterministic simulation with fault injection: seeded search over schedules, map orders, clock jumps and failing evaluations of the real library on a simulated Go scheduler"
cli="deterministic simulation with fault injection: seeded search over divided, interrupted and failing system calls, damage and kills of the real jpath on a simulated kernel and Go scheduler"
tech={
'C01':lib+', against a reference interpreter; part of the runs under the race detector',
'C02':lib+', under the happens-before race detector',
'C03':lib+', with callers that overwrite results, against deep snapshots and a reference interpreter',
'C04':lib+', with live-goroutine accounting at quiescence and a bound on steps',
'C05':lib+', against a reference interpreter that knows every permitted order',
'C06':lib+', with failures at every point of iterations, against a reference interpreter',
'C07':lib+', over long histories of evaluations, against a reference interpreter and evaluations in a fresh process',
'C08':lib+', with the order of object members chosen by the simulator, against a reference interpreter',
'C09':lib+', of concurrent compilations compared with compilations alone in a fresh process',
'C10':cli+' (transient faults only), against a reference model of the command',
'C11':cli+' (read errors, truncation, corruption, failing evaluations), against a reference model of the command',
'C12':cli+' (failing and torn writes, kills), against the undisturbed run with the same input',
'C13':cli+' (lines of all lengths and divisions, bad lines), against a reference model of the command',
'C14':cli+' (files that cannot be opened, read or closed, few descriptors), against a reference model and the runs for each file alone',
'C15':cli+' (bad values and lines, read and open errors, failing evaluations), against the places worked out from the whole input',
'C17':lib+', with weak pointers to every container and result list checked after forced collections',
'C18':cli+' on very long streams, with the backlog of results and the live heap watched throughout',
'C16':cli+' waiting for a command that must not begin, checking the history of system calls',
}
liba="Bounded search, no proof: as many seeded runs as fit in the time. Trusts the reference interpreter (sim/model), the Go runtime and standard library under the simulated scheduler; interleavings are at statement boundaries and blocking operations."
clia="Bounded search, no proof: as many seeded runs as fit in the time. Trusts the simulated kernel, the reference interpreter (sim/model) and encoding/json given whole inputs."
na={
'N01':"Acceptance of one string by a sequential, deterministic parser: no schedule, clock, I/O, fault or other party can influence it, so there is nothing to simulate. (That concurrent and earlier compilations don't influence it is C09.)",
'N02':"Totality of a sequential, deterministic function of one string; no nondeterminism to put under a simulator. (Runs of C09 compile many texts, valid and not, and report panics, but the property is about inputs only.)",
'N03':"Values of operators are pure functions of two operands; nothing to schedule or inject. Would need input generation or proof, not simulation.",
'N04':"Pure arithmetic on one array length and three numbers; nothing to schedule or inject.",
'N05':"Values of built-in functions are pure functions of their arguments; nothing to schedule or inject. (That keys() doesn't depend on member order is in C08.)",
'N06':"Decoding of literals is a pure function of the text; nothing to schedule or inject.",
}
checks=[]
for p in props:
    i=p['id']
    if i in tech:
        l=int(i[1:])<=9 or i=='C17'
        checks.append({'property':i,'quick_cmd':'./check.sh '+i,'thorough_cmd':'VERIF_TIER=thorough ./check.sh '+i,'evidence_file':'evidence/%s.json'%i,'technique':tech[i],'level':'exploration','level_note':liba if l else clia})
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':[{'property':k,'reason':v} for k,v in na.items()],
'notes':'No hooks in /repo: scheduling points, the scheduler and the simulated kernel are put in by "go build -overlay" from /verif/sim. ./check.sh -replay FILE replays a violation.'}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')

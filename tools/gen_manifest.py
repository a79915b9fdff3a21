#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a TestCxx in the harness."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(root + '/harness/*_test.go'):
    have |= set(re.findall(r'^func Test(C\d\d)\(', open(f).read(), re.M))
TECH = {
 'C01': ('stateful property-based testing (rapid) of the whole adapter against a reference policy resolver and credential oracle', 'live adapter over a fake Kubernetes API and a fake provider; trusts the reference resolver and the stub servers'),
 'C02': ('property-based testing (rapid) against a reference resolver', 'generated policy sets and requests over a small colliding alphabet, decided by the engine alone and by the live adapter'),
 'C03': ('stateful property-based testing (rapid): history versus fresh load, differential and against a reference resolver', 'generated create/update/delete histories over overlapping policies'),
 'C04': ('stateful property-based testing (rapid) against a model of the live configs and secrets', 'generated config/secret histories through the live adapter and through the event handler with a fake clientset'),
 'C05': ('property-based testing (rapid): structured token forgery against an independent verifier', 'generated tokens, key sets and clock; oracle is an independent RS256/384/512 and PS verifier; RSA mathematics of the Go library is trusted'),
 'C06': ('property-based testing (rapid) against a reference rule evaluator', 'generated claims and rules; the reference is written from the README'),
 'C07': ('property-based testing (rapid) against a protocol oracle', 'generated Authorization headers, tokens and rules through the live adapter'),
 'C08': ('stateful property-based testing (rapid) with injected faults against a model of the last good key set', 'generated key-set documents, rotations and HTTP faults'),
 'C09': ('property-based testing (rapid): round trip of the login through a browser and provider model', 'generated clients, scopes, hosts, paths and endpoints through the live adapter'),
 'C10': ('property-based testing (rapid): structured forgery of state cookies and callbacks, oracle over provider traffic', 'generated callbacks and cookies; securecookie primitives are trusted'),
 'C11': ('stateful property-based testing (rapid) against a session model with a controlled clock', 'generated login/request/expiry/refresh/logout histories over two clients'),
 'C12': ('property-based testing (rapid) with injected faults against an acceptance oracle', 'generated opaque tokens, rules and userinfo behaviour'),
 'C13': ('property-based testing (rapid) over logins, processes and clients with uniqueness, replay-prediction and distribution oracles', 'statistical and structural: collisions, prediction from seeds near the process start, per-position uniformity'),
 'C14': ('property-based testing (rapid) with injected faults: round trip of the token request and outcome oracle', 'generated client credentials, codes and token-endpoint answers'),
 'C15': ('stateful property-based testing (rapid) with injected faults against a model of the last good discovery document', 'generated sequences of discovery outcomes and requests'),
 'C16': ('stateful property-based testing (rapid) with injected Kubernetes API faults, several replicas over one secret store', 'generated API fault schedules; invariant over every issued cookie'),
 'C17': ('randomised schedules under the Go race detector with generated concurrent histories and a linearisability-style decision oracle', 'generated concurrent operations; finds races and wrong decisions on the schedules executed'),
 'C18': ('fuzzing with structured generators: panic, hang and after-effect oracles', 'generated malformed messages, provider answers and custom resources, with a watchdog'),
 'C19': ('property-based testing (rapid): round trips through JSON, the typed client and informers, and aliasing checks', 'generated resources; the CRD schema and README give the field names'),
 'C20': ('stateful property-based testing (rapid) with injected watch faults against the reference resolver', 'generated cluster histories with dropped, expired and refused watches through the live adapter'),
 'C21': ('property-based testing (rapid): taint scan of all answers and provider traffic', 'generated flows and failures with marked secrets; scans for literal, escaped and encoded forms'),
 'C23': ('property-based testing (rapid): the rendered Helm chart with generated values, objects and requests against a schema oracle and the reference model', 'the chart is rendered and its attribute expressions evaluated by a small interpreter of the constructs it uses, then the built command is run as deployed; Mixer, Tiller and the API server are modelled'),
 'C22': ('property-based testing (rapid): the built command run with generated command lines, cluster histories and restarts', 'generated permitted and refused command lines; served histories over gRPC judged by the reference model; restarts inside logins'),
}
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        t, n = TECH[i]
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i,
          'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
 'notes': 'No hooks: /repo is driven through its exported packages, its gRPC service methods, and fake servers. thorough is selected by VERIF_TIER=thorough. Replay: ./check.sh Cxx --replay FILE.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1); open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks;', len(na), 'not applicable')

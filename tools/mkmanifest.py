#!/usr/bin/env python3
# writes MANIFEST.json from the property list
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C17': 'floating-point error: Verus reads f32/f64 arithmetic as uninterpreted (no rounding model), so no contract within reach can bound the rounding error; the contracts read arithmetic as exact reals',
}
NOTE = 'Proof: every obligation Verus generates from the functions extracted from /repo/src on this run is discharged, for all lengths up to 2^31 and all inputs. Trusted: Verus/Z3, the extractor, floating point read as exact reals, the contract assumed of the inner FFT (rustfft), the listed trigonometric axioms (each proved in lean/Axioms.lean), array_utils pointer casts. A function that a change moves out of the verifier\'s reach is only replay-tested on that run (labelled bounded in the evidence).'
EXTRA = {
 'C07': ' The replay part compares real runs with dirty, longer and exact scratch.',
 'C09': ' Lengths above 2^31 and stack depth are outside the claim.',
 'C15': ' The reconstruction theorem is a lemma over the MDCT and window postconditions.',
 'C18': ' In a run of its own the extractor gives every body a ghost step counter (arithmetic operators of the straight-line text, loop bodies once per round, the stated bound of every contracted call) and every exit asserts it stays within the @cost of the contract; the planner\'s contracts bound the work of what it returns by k * n * bits(n), k between 1000 and 2000. Assumed: a planned FFT of length m costs at most 100 * m * bits(m) (27.6 is the most ever counted). Filling, copying and allocation are not counted. The replay part counts real operations with a counting number type.',
 'C19': ' The client programs of contracts/l_threads.rs share one Arc<dyn ...> between any number of threads and prove every joined result equal to the value the contract gives for that thread\'s own input, from the contracts of the &self methods and vstd\'s contracts of spawn, join and Arc; the replay part runs 8 to 16 real threads on shared objects.',
 'C16': ' The inverse theorem is a lemma over the transforms\' postconditions.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         hooks=dict(guard='none', enable='no hooks are needed: the checks read /repo/src and link the unmodified crate', source_commits=[]),
         notes='Contracts in contracts/*.vc are attached to functions extracted mechanically from /repo/src on every run; see DESIGN.md. known_findings.json lists the repaired defects.')
for p in props:
    i = p['id']
    if i in NA: continue
    m['checks'].append(dict(property=i, quick_cmd='python3 tools/check.py %s quick' % i, thorough_cmd='python3 tools/check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
        technique='contract-based deductive verification (Verus on extracted functions), failing obligations replayed on the real code', level='proof', level_note=NOTE + EXTRA.get(i, '')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

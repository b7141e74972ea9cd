import json
T={
"C01":("differential monitor against an executable specification (model-steered inputs)","Held on every observed state: all 15 named instances, optimised and checked builds. Sampled, not proved; steering reaches special values at every inner layer."),
"C02":("differential monitor against an executable specification (model-steered inputs)","As C01, both evaluators of all 15 named instances; steering uses the optimised evaluator's own layers too."),
"C03":("exhaustive table monitor against regenerated constants","Every entry of every public table is compared on each run (complete); the wiring of instances is observed through sampled states."),
"C04":("differential monitor on generated parameter sets, whole tiny state spaces","Sampled parameter sets over 14 fields; complete over the state space for tiny ones."),
"C05":("differential monitor on generated parameter sets, whole tiny state spaces","As C04, both evaluators; matrices include sparse and zero-pivot ones."),
"C06":("differential monitor of both evaluators, named and generated instances","Sampled; constants are read through the vp_hooks hook, without it the two evaluators are compared with each other."),
"C07":("differential monitor, named and generated instances","Sampled; parameters are read through the vp_hooks hook."),
"C08":("image-set and model-inverse monitors","Complete on tiny state spaces, sampled through the inverse on production instances."),
"C09":("history checker with a pristine-process oracle","Sampled histories in one process, across objects, threads and processes."),
"C10":("ThreadSanitizer, Miri with many schedules, history checker under stress","Observed interleavings only; first use of every global raced in fresh processes."),
"C11":("AddressSanitizer, MemorySanitizer, Miri and checked arithmetic over an API-wide tour","Observed executions only; dependencies are instrumented too, except that Miri runs a smaller tour."),
"C12":("trace oracle with symbolic (injective) compressions","Sampled sizes and patterns, all small sizes; the root identifies the whole tree."),
"C13":("differential monitor with real and synthetic digests","Sampled sizes and patterns, all small sizes, seven digest algorithms and toy ones."),
"C14":("trace oracle with symbolic level-aware compressions","Sampled sizes and patterns, all small sizes; the root identifies tree and levels."),
"C15":("differential monitor compression versus permutation, refusal monitor","Sampled pairs, all pairs for small fields."),
"C16":("algebraic monitor (defining identities) on generated matrices","Sampled, complete for tiny fields and sizes."),
"C17":("differential monitor against big-integer arithmetic","Special operands crossed, random ones sampled; moduli and generators complete."),
"C18":("differential monitor against a big-integer decoder, refusal monitor","Sampled strings of all lengths in range and all single-character corruptions."),
"C19":("statistical monitors and freshness checker over draws, threads and processes","Statistical: biases above the stated resolution are seen; false alarms below 1e-9 per run."),
"C20":("refusal monitor in optimised and checked builds","Sampled misuse space, all wrong lengths near the width."),
"C21":("counting allocator between equal call batches","Observed histories; growth must persist over a longer second look before it counts."),
"C23":("output monitor of the parameter script against an independent generator","Complete for the prime and width of all 15 named instances, sampled for others; Sage itself is replaced by a stand-in."),
"C22":("equivalence monitor of derived tables against plain rounds","Sampled matrices, constants and states over 14 fields."),
}
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"python3 check.py build",
"hooks":{"guard":"cfg(vp_hooks)","enable":"RUSTFLAGS=\"--cfg vp_hooks\" (check.py sets it; if a tree does not build with it, the checks fall back to a build without hooks)","source_commits":["c591c84f0eca4c0b338f79cdf5dedb24a174ae55"]},
"checks":[{"property":i,"quick_cmd":"python3 check.py %s quick"%i,"thorough_cmd":"python3 check.py %s thorough"%i,"evidence_file":"evidence/%s.json"%i,"technique":"runtime monitoring: "+T[i][0],"level":"exploration","level_note":T[i][1]} for i in ids],
"not_applicable":[]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
